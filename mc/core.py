"""Explorer: enumerates every case of a check, runs it on the real code in parallel,
collects states, transitions and violations, writes evidence and replay files."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


def setup_env():
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['TZ'] = 'UTC'
    sys.dont_write_bytecode = True
    # never trust bytecode left by another tree
    sys.pycache_prefix = os.path.join(VERIF, '.nopycache')
    sys.path[:0] = [os.path.join(VERIF, 'env'), REPO]
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


setup_env()

import hashlib
import itertools
import json
import multiprocessing as mp
import resource
import shutil
import signal
import tempfile
import time
import traceback
from multiprocessing.connection import wait

CASE_TIMEOUT = 120
MEMORY = 8 << 30      # of one process
MAX_VIOLATIONS = 12


class Mismatch(Exception):
    """The code under test and the reference model disagree."""


def require(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


class Trace(object):
    """Record of one case: observed states and executed operations."""

    def __init__(self):
        self.states = set()
        self.steps = 0
        self.compared = 0

    def step(self, *state):
        """One operation of the code under test and the state it led to."""
        self.steps += 1
        self.states.add(digest(state))

    def agree(self, n=1):
        """n model/implementation comparisons were made."""
        self.compared += n


def digest(x):
    return hashlib.blake2b(_bytes(x), digest_size=8).digest()


def _bytes(x):
    import numpy as np
    if isinstance(x, bytes):
        return b'b' + x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            x = np.round(x.astype('f8'), 9) + 0.0
        if x.dtype.kind in 'OM':
            return b'o' + repr(x.tolist()).encode()
        return b'a' + str(x.shape).encode() + np.ascontiguousarray(x).tobytes()
    if isinstance(x, (list, tuple)):
        return b'(' + b','.join(_bytes(i) for i in x) + b')'
    if isinstance(x, dict):
        return b'{' + b','.join(_bytes(k) + b':' + _bytes(v)
                                for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + b'}'
    if hasattr(x, 'to_dict') and hasattr(x, 'data_vars'):
        return dataset_bytes(x)
    if isinstance(x, float):
        return repr(round(x, 9) + 0.0).encode()
    return repr(x).encode()


def dataset_bytes(ds):
    return b'D' + b';'.join(str(n).encode() + b'=' + _bytes(ds[n].values)
                            for n in sorted(ds.variables, key=str))


def deviations(default, alternatives, k):
    """Every assignment that departs from ``default`` in at most k names, fewest first."""
    names = list(alternatives)
    for n in range(k + 1):
        for combo in itertools.combinations(names, n):
            for vals in itertools.product(*[alternatives[m] for m in combo]):
                case = dict(default)
                case.update(zip(combo, vals))
                yield case


_scratch = None
_root = None        # holds the directories of all cases of a run


def scratch():
    """Private directory of the running case (removed afterwards)."""
    return _scratch


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout('case did not end within %d s' % CASE_TIMEOUT)


def run_case(module, case):
    """Run one case; returns (trace, None or message)."""
    global _scratch
    trace = Trace()
    _scratch = tempfile.mkdtemp(prefix='mc-', dir=_root)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    cwd = os.getcwd()
    err = None
    try:
        os.chdir(_scratch)
        module.check(case, trace)
    except Mismatch as e:
        err = 'disagreement with the model: %s' % e
    except Timeout as e:
        err = str(e)
    except Exception:
        err = 'unexpected exception: ' + traceback.format_exc(limit=-6)
    except SystemExit as e:
        err = 'unexpected exit %s' % e
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(_scratch, ignore_errors=True)
    return trace, err


_module = None


def _work(item):
    i, case = item
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        trace, err = run_case(_module, case)
    finally:
        sys.stdout.close()
        sys.stdout = out
    return i, b''.join(trace.states), trace.steps, trace.compared, err


class Workers(object):
    """Processes that run cases.  A case that twice ends its process, or that cannot be interrupted, is reported as failed."""

    def __init__(self, n):
        self.ctx = mp.get_context('fork')
        self.n = n
        self.procs = {}         # connection -> (process, items in hand, time of the last answer)

    def start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=self.serve, args=(b, [a] + list(self.procs)), daemon=True)
        p.start()
        b.close()
        self.procs[a] = [p, [], time.time()]
        return a

    @staticmethod
    def serve(conn, others):
        for c in others:
            c.close()
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        while True:
            try:
                items = conn.recv()
            except EOFError:
                return
            for item in items:
                conn.send(_work(item))

    def drop(self, c):
        p = self.procs.pop(c)[0]
        p.kill()
        p.join()
        c.close()
        return p.exitcode

    def run(self, feed, chunk):
        feed, again, died = iter(feed), [], set()
        for _ in range(self.n):
            self.start()
        while True:
            for c, w in list(self.procs.items()):
                if not w[1]:
                    w[1] = [again.pop()] if again else list(itertools.islice(feed, chunk))
                    w[2] = time.time()
                    if w[1]:
                        c.send(w[1])
            busy = [c for c, w in self.procs.items() if w[1]]
            if not busy:
                return
            for c in wait(busy, timeout=5):
                w = self.procs[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    item, rest = w[1][0], w[1][1:]
                    code = self.drop(c)
                    again += rest
                    self.start()
                    if item[0] in died:
                        yield item[0], b'', 0, 0, 'the process ended with code %s' % code
                    else:
                        died.add(item[0])
                        again.append(item)
                    continue
                w[1], w[2] = w[1][1:], time.time()
                yield r
            for c in busy:
                w = self.procs.get(c)
                if w and w[1] and time.time() - w[2] > CASE_TIMEOUT + 30:
                    item, rest = w[1][0], w[1][1:]
                    self.drop(c)
                    again += rest
                    self.start()
                    yield item[0], b'', 0, 0, 'case did not end and could not be interrupted'

    def end(self):
        for c in list(self.procs):
            self.drop(c)


def load_known():
    """known-findings file: 'known: property=ID key=KEY text' lines suppress by key."""
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                f = line.split(None, 3)
                known[(f[1].split('=', 1)[1], f[2].split('=', 1)[1])] = f[3].strip()
    return known


def explore(pid, module, tier, seed, jobs):
    """Enumerate module.cases(tier); exit code 0 or 1."""
    global _module, _root
    _module = module
    _root = tempfile.mkdtemp(prefix='mc-')
    t0 = time.time()
    if hasattr(module, 'prepare'):
        module.prepare(tier)
    states, steps, compared, ncases = set(), 0, 0, 0
    kinds, violations, known_hits = {}, [], {}
    known = load_known()
    seen = {}
    samples = []

    def feed():
        for i, c in enumerate(module.cases(tier)):
            seen[i] = c
            yield i, c
    complete = True
    pool = Workers(jobs)
    try:
        for i, st, n, cmp_, err in pool.run(feed(), getattr(module, 'CHUNK', 4)):
            case = seen.pop(i)
            ncases += 1
            steps += n
            compared += cmp_
            states.update(st[j:j + 8] for j in range(0, len(st), 8))
            if ncases & (ncases - 1) == 0 and len(samples) < 8:
                samples.append(case)
            kinds[case.get('kind', 'case')] = kinds.get(case.get('kind', 'case'), 0) + 1
            if err:
                key = module.finding_key(case, err) if hasattr(module, 'finding_key') else None
                if key is not None and (pid, key) in known:
                    known_hits[key] = known_hits.get(key, 0) + 1
                    continue
                violations.append((i, case, err))
                if len(violations) >= MAX_VIOLATIONS:
                    complete = False
                    break
    finally:
        pool.end()
        shutil.rmtree(_root, ignore_errors=True)
    wall = time.time() - t0
    violations.sort(key=lambda v: v[0])
    records = []
    for i, case, err in violations:
        path = write_replay(pid, i, case, err)
        records.append({'case': i, 'replay': path, 'what': err.strip().splitlines()[-1][:400]})
    level = getattr(module, 'LEVEL', 'model_checking')
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'wall_s': round(wall, 3),
        'coverage': {
            'states': len(states), 'transitions': steps,
            'traces_validated_against_impl': ncases,
            'samples': samples,
            'exhaustive': bool(complete),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'violations': len(records),
        'detail': {
            'bounds': module.BOUNDS[tier],
            'cases_by_kind': kinds,
            'model_comparisons': compared,
            'distinct_states': len(states),
            'known_findings_met': known_hits,
            'violation_records': records,
            'technique': 'exhaustive enumeration of the stated family on the real code '
                         'against a reference model; each case replayed on the implementation',
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d traces, %d transitions, %d distinct states, %d comparisons, %s, %.1f s' % (
        pid, tier, ncases, steps, len(states), compared,
        'exhaustive within bound' if complete else 'stopped at violations', wall))
    print('%s bounds: %s' % (pid, module.BOUNDS[tier]))
    print('%s cases: %s' % (pid, kinds))
    for key, n in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, known[(pid, key)], n))
    for r in records[:3]:
        print(r['what'])
    for r in records[:1]:
        print('VIOLATION property=%s replay=%s' % (pid, r['replay']))
    sys.stdout.flush()
    return 1 if violations else 0


def write_replay(pid, i, case, err):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%06d.json' % (pid, i))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': case, 'error': err}, f, indent=1, default=str)
    return path
