"""C17: text lightning data."""
import itertools
import os

import numpy as np
import xarray as xr

from mc import core
from mc.core import require
from glmtools.io.convert_lcfa import main, merge_dataframes_to_xarray, parse_LCFA_ASCII

BOUNDS = {
    'quick': 'every sequence of up to 5 lines out of flash, group, event and other lines; every single field at each of 9 values, every pair of fields at two of them; trees of up to 3 flashes; line endings and trailing lines; records of every level repeated by id or entirely; files of 300 and 70,000 events; output written over that of another input',
    'thorough': 'as quick with sequences of up to 7 lines and every pair of fields at 4 values',
}
ASSUMPTIONS = ['tabs mark the level, as in the example of the format']
INTS = [0, 1, 7, 65535, 65536, 123456789, 4294967295, 2147483648, 5000000000]
FLOATS = ['0.000', '-0.001', '-179.999', '543398228.069', '1.838e-13', '9.999e-16', '715.9', '89.123456', '1e+05']
# kind -> list of (label printed, variable, is integer)
FIELDS = {
    'F': [('Start Time', 'flash_time_offset_of_first_event', 0), ('End Time', 'flash_time_offset_of_last_event', 0), ('Centroid Lat', 'flash_lat', 0), ('Centroid Lon', 'flash_lon', 0),
          ('Energy', 'flash_energy', 0), ('Footprint', 'flash_area', 0), ('Child_Count', 'flash_child_group_count', 1)],
    'G': [('Start Time', 'group_time_offset', 0), ('End Time', None, 0), ('Centroid Lat', 'group_lat', 0), ('Centroid Lon', 'group_lon', 0),
          ('Energy', 'group_energy', 0), ('Footprint', 'group_area', 0), ('Parent_ID', 'group_parent_flash_id', 1), ('Child_Count', 'group_child_event_count', 1)],
    'E': [('Time', 'event_time_offset', 0), ('X_Pixel', 'x_pixel', 1), ('Y_Pixel', 'y_pixel', 1), ('Lat', 'event_lat', 0), ('Lon', 'event_lon', 0), ('Energy', 'event_energy', 0), ('Parent_ID', 'event_parent_group_id', 1)],
}
IDS = {'F': 'flash_id', 'G': 'group_id', 'E': 'event_id'}
DIMS = {'F': 'number_of_flashes', 'G': 'number_of_groups', 'E': 'number_of_events'}
HEAD = {'F': 'D Flash #%d', 'G': '\tD Group #%d Child #%d', 'E': '\t\tEvent #%d Child #%d'}
OTHER = ['', 'File: LCFA run 3', '# D Flash #9 not data', 'E Flash summary 4', 'Total flashes:3 groups:5', '\tE Group none', '\t\tTracking Event #4']
COORDS = {'event_id', 'event_time_offset', 'event_lat', 'event_lon', 'event_parent_group_id', 'group_id', 'group_time_offset', 'group_lat', 'group_lon', 'group_parent_flash_id',
          'flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event', 'flash_lat', 'flash_lon'}


def cases(tier):
    th = tier == 'thorough'
    for n in range(0, 8 if th else 6):
        for head in itertools.product('FGEO', repeat=min(n, 3)):
            yield dict(kind='sequence', n=n, head=list(head))
    for k in 'FGE':
        for i in range(len(FIELDS[k]) + 1):
            yield dict(kind='single', level=k, field=i)
            for j in range(i):
                yield dict(kind='pair', level=k, a=i, b=j, values=[1, 2, 4, 5] if th else [2, 4])
    for dup in itertools.product(range(3), repeat=3):
        yield dict(kind='repeat', dup=list(dup))
    for n in (300, 70000):
        yield dict(kind='long', n=n)
    for shape in ([], [[1]], [[2, 1]], [[1], [3, 2]], [[], [2]], [[0], [1, 1], [2]], [[3, 3, 3], [1], [2, 2]]):
        for ending in ('\n', '\r\n', 'none'):
            for ids in ('small', 'large', 'reversed'):
                yield dict(kind='tree', shape=shape, ending=ending, ids=ids)


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def record(kind, rid, seed, **over):
    """values as printed"""
    out = {'id': rid}
    for n, (label, var, is_int) in enumerate(FIELDS[kind]):
        out[n] = str(seed * 13 + n) if is_int else '%.3f' % (seed * 1.371 + n * 10 - 30) if label != 'Energy' else '%.3e' % (1e-15 * (1 + seed + n))
    out.update(over)
    return out


def text(kind, r, child):
    head = HEAD[kind] % ((r['id'],) if kind == 'F' else (r['id'], child))
    return head + ''.join(' %s:%s' % (label, r[n]) for n, (label, var, is_int) in enumerate(FIELDS[kind]))


def lines_of(recs):
    out = []
    for n, (k, r) in enumerate(recs):
        out.append(OTHER[n % len(OTHER)] if k == 'O' else text(k, r, n))
    return out


def judge(recs, trace, ending='\n', save=False, old=False):
    path = os.path.join(core.scratch(), 'in.txt')
    lines = lines_of(recs)
    body = ('\n' if ending == 'none' else ending).join(lines) + ('' if ending == 'none' or not lines else ending)
    with open(path, 'w', newline='') as f:
        f.write(body)
    frames = dict(zip('FGE', parse_LCFA_ASCII(path)))
    have = {k: [r for q, r in recs if q == k] for k in 'FGE'}

    def compare(get, size, what):
        for k in 'FGE':
            require(size(k) == len(have[k]), '%s: %d records of kind %s, expected %d', what, size(k), k, len(have[k]))
            if not have[k]:
                continue
            require([int(v) for v in get(k, IDS[k])] == [r['id'] for r in have[k]], '%s: ids of %s', what, k)
            for n, (label, var, is_int) in enumerate(FIELDS[k]):
                if var is None:
                    continue
                got = list(get(k, var))
                for g, r in zip(got, have[k]):
                    want = int(r[n]) if is_int else float(r[n])
                    require(float(g) == want and (int(g) == want if is_int else True), '%s: %s is %r, printed %s', what, var, g, r[n])
                    trace.agree()
    compare(lambda k, v: frames[k][v].values, lambda k: len(frames[k]), 'parsed')
    trace.step([(k, r if k == 'O' else sorted(r.items(), key=str)) for k, r in recs])
    if not all(have.values()):
        if not save:
            return
    ds = merge_dataframes_to_xarray(frames['F'], frames['G'], frames['E'])

    def judge_ds(d, what):
        compare(lambda k, v: d[v].values, lambda k: d[IDS[k]].size, what)
        require(COORDS <= set(d.coords), '%s: %s are not coordinates', what, sorted(COORDS - set(d.coords)))
        for k in 'FGE':
            for v in [IDS[k]] + [f[1] for f in FIELDS[k] if f[1]]:
                require(d[v].dims == (DIMS[k],), '%s: %s has dimensions %s', what, v, d[v].dims)
    judge_ds(ds, 'merged')
    if save:
        out = os.path.join(core.scratch(), 'out.nc')
        if old:
            # a longer one is there already
            was = os.path.join(core.scratch(), 'was.txt')
            with open(was, 'w') as f:
                f.write('\n'.join(lines_of([(k, record(k, 900 + n, n)) for n in range(40) for k in 'FGE'])) + '\n')
            main(was, out)
        main(path, out)
        with xr.open_dataset(out, decode_times=False) as d:
            judge_ds(d.load(), 'saved')
            require(all(d.sizes[DIMS[k]] == len(have[k]) for k in 'FGE'), 'saved: dimensions %s', dict(d.sizes))
        os.remove(out)


def check_sequence(case, trace):
    n = case['n']
    for tail in itertools.product('FGEO', repeat=n - len(case['head'])):
        kinds = tuple(case['head']) + tail
        recs = [(k, k if k == 'O' else record(k, (i * 5) % 7, i)) for i, k in enumerate(kinds)]
        judge(recs, trace, save=n == 4)


def check_single(case, trace):
    k, i = case['level'], case['field']
    for v in INTS + FLOATS:
        is_int = i == len(FIELDS[k]) or FIELDS[k][i][2]
        if is_int != isinstance(v, int):
            continue
        recs = [(q, record(q, 3, 2)) for q in 'FGE'] + [(k, record(k, 4, 5))]
        r = record(k, 8, 3, **({'id': v} if i == len(FIELDS[k]) else {}))
        if i < len(FIELDS[k]):
            r[i] = str(v)
        judge(recs + [(k, r)], trace, save=True)


def check_pair(case, trace):
    k = case['level']
    recs = [(q, record(q, 3, 2)) for q in 'FGE']
    for a, b in itertools.product(case['values'], repeat=2):
        r = record(k, 9, 4)
        for i, v in ((case['a'], a), (case['b'], b)):
            if i == len(FIELDS[k]):
                r['id'] = INTS[v]
            else:
                r[i] = str(INTS[v]) if FIELDS[k][i][2] else FLOATS[v]
        judge(recs + [(k, r)], trace)


def check_repeat(case, trace):
    """0: all different; 1: another record with the same id; 2: the same line once more."""
    for late in (False, True):
        recs, tail = [], []
        for k, dup in zip('FGE', case['dup']):
            recs += [(k, record(k, 3, 2)), (k, record(k, 5, 4))]
            if dup:
                (tail if late else recs).append((k, record(k, 3, 2) if dup == 2 else record(k, 3, 7)))
        judge(recs + tail, trace, save=True)


def check_long(case, trace):
    recs = [('F', record('F', 1, 1)), ('G', record('G', 1, 2))]
    for i in range(case['n']):
        recs.append(('E', record('E', i, i)))
    recs += [(k, record(k, 2, 3)) for k in 'FG']
    judge(recs, trace, save=True)


def check_tree(case, trace):
    ids = {'small': lambda n: n, 'large': lambda n: 70000 + 13 * n, 'reversed': lambda n: 50 - n}[case['ids']]
    recs, g, e = [], 0, 0
    for f, groups in enumerate(case['shape']):
        r = record('F', ids(f), f)
        r[6] = str(len(groups))
        recs.append(('F', r))
        for nev in groups:
            r = record('G', ids(g), g + 3)
            r[6], r[7] = str(ids(f)), str(nev)
            recs.append(('G', r))
            for _ in range(nev):
                r = record('E', ids(e), e)
                r[6] = str(ids(g))
                recs.append(('E', r))
                e += 1
            g += 1
    judge(recs, trace, ending=case['ending'], save=True, old=case['ids'] == 'reversed')
