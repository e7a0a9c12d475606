"""Set-up step: the explorer and the environment model import and the code under test loads."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
import lmatools
n = sum(1 for _ in core.deviations({'a': 0, 'b': 0}, {'a': [1, 2], 'b': [1]}, 2))
assert n == 1 + 3 + 2, n
print('ready')
