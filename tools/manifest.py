#!/usr/bin/env python3
"""Write MANIFEST.json: one entry per check module present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from properties import P
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python -B mc/run.py %s --tier ' % i
        checks.append(dict(property=i, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           technique='explicit-state enumeration on the real code against a reference model',
                           level='model_checking', level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B mc/selftest.py', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
