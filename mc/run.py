"""run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from mc import core
    import importlib
    import traceback
    try:
        module = importlib.import_module('mc.checks.' + a.property.lower())
    except Exception:
        # the check's own imports are fixed; what can fail to import is the code under test
        if 'mc.checks' not in sys.modules:
            raise
        err = 'import failed: ' + traceback.format_exc(limit=-4)
        print(err)
        path = core.write_replay(a.property, 0, {'kind': 'import'}, err)
        print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    if a.replay:
        case = json.load(open(a.replay))['case']
        if hasattr(module, 'prepare'):
            module.prepare(a.tier)
        bad = 0
        for _ in range(2):
            trace, err = core.run_case(module, case)
            print(err or 'held: %d steps, %d states' % (trace.steps, len(trace.states)))
            bad = bad or bool(err)
        if bad:
            print('VIOLATION property=%s replay=%s' % (a.property, a.replay))
        return 1 if bad else 0
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    return core.explore(a.property, module, tier, seed, a.jobs)


if __name__ == '__main__':
    sys.exit(main())
