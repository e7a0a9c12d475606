"""C20: table view."""
import collections
import datetime as dt
import itertools
import os

import numpy as np

from mc import core, hier, lcfa, nav
from mc.core import require
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import GLMncCollection, mimic_lma_dataset, read_flashes, TimeSeriesGLMFlashSubset

BOUNDS = {
    'quick': 'every tree of up to 3 flashes, 3 groups and 4 events (rows in any parent order), read in chunks of 1, 2, 3 and all; 5 base dates; selections by count, place and fixed grid range; 4 files of 100 to 250 flashes at the default and 3 other chunk sizes, up to 33,001 events in a flash with ids at the end of the range, 40,003 flashes in a collection; '
             'collections of up to 3 files, with quiet files and selections that leave nothing; time series readers with and without base date',
    'thorough': 'as quick with files in every order, trees of 3 flashes, 4 groups and 4 events and of 2 flashes, 3 groups and 5 events, all id sets up to 10 rows and all base dates up to 3',
}
ASSUMPTIONS = ['the collection class of the companion package keeps times sorted and calls the hooks of the subclass', 'the time series class of the companion package uses the day of its start when no base date is given']
BASES = [dt.datetime(2018, 7, 2), dt.datetime(2018, 7, 1), dt.datetime(2018, 7, 2, 4), dt.datetime(2018, 7, 3), dt.datetime(2000, 1, 1, 12)]
SELECT = [{}, dict(min_events=2), dict(min_groups=2), dict(min_events=99), dict(lon_range=(-76.5, -74.)), dict(lat_range=(11.6, 12.5)), dict(lon_range=(-76.5, -71.), lat_range=(11., 11.8)), dict(lat_range=(11., 20.), min_events=1), dict(min_groups=1), dict(min_events=2, min_groups=2),
          dict(x_range=(-0.008, 0.006)), dict(y_range=(0.0355, 0.0453)), dict(x_range=(-0.005, 0.0165), y_range=(0.0357, 0.0451)), dict(x_range=(-0.2, 0.004), y_range=(0.0361, 0.2))]


def sizes(th):
    yield from [(1, 1, 1), (1, 1, 2), (1, 2, 3), (2, 2, 2), (2, 2, 3), (2, 3, 4), (3, 3, 3), (3, 3, 4)]
    if th:
        yield from [(3, 4, 4), (2, 3, 5)]


def cases(tier):
    th = tier == 'thorough'
    n = 0
    for sz in sizes(th):
        for parents in hier.forests(sz):
            if any(set(p) != set(range(up)) for p, up in zip(parents, sz)):
                continue        # no childless rows (decided by C03)
            for scheme in ('up', 'u16', 'mixed') if th and sum(sz) < 11 else [('up', 'u16', 'mixed')[n % 3]]:
                for base in range(5) if th and sz[2] < 4 else [n % 5]:
                    yield dict(kind='table', sizes=list(sz), parents=parents, scheme=scheme, base=base)
            n += 1
    yield dict(kind='empty')
    for shape in ((1, 1, 300), (2, 3, 700), (1, 2, 33001)):
        yield dict(kind='busy', sizes=list(shape))
    yield dict(kind='crowd', n=40003)
    for shape in ((251, 251, 503), (205, 610, 610), (100, 300, 301), (199, 199, 199)):
        yield dict(kind='large', sizes=list(shape))
    files = ['three', 'one', 'quiet', 'unsorted', 'split']
    for k in (1, 2, 3):
        picks = itertools.permutations if th or k < 3 else itertools.combinations
        for i, pick in enumerate(picks(range(len(files)), k)):
            for base in range(5) if th else [(i + k) % 5]:
                yield dict(kind='collection', files=[files[i] for i in pick], base=base)
    for name in files:
        for base in [None] + list(range(5)):
            yield dict(kind='series', file=name, base=base)


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def seconds(t0, ms, base):
    return (t0 - base).total_seconds() + ms / 1000.0


def model(d, base, ids=None):
    """tables by level: list of (child rows, parent rows) as dicts"""
    d = lcfa.filled(d)
    t0 = lcfa.when(d['start'])
    fl = {g['id']: g['fl'] for g in d['G']}
    keep = {f['id'] for f in d['F']} if ids is None else ids
    F = [f for f in d['F'] if f['id'] in keep]
    G = [g for g in d['G'] if g['fl'] in keep]
    E = [e for e in d['E'] if fl[e['gr']] in keep]
    en = lambda r: lcfa.float_energy(r['energy'], d) * 1e9

    def child(e, parent):
        lon, lat = lcfa.event_lonlat([e['lat']], [e['lon']], d['nadir'])
        return dict(flash_id=parent, lat=float(lat[0]), lon=float(lon[0]), alt=0.0, time=seconds(t0, e['t'], base), power=en(e))

    def parent(r, t1, area, n, lon, lat):
        return dict(flash_id=r['id'], area=area, total_energy=en(r), ctr_lat=lat, ctr_lon=lon, init_lat=lat, init_lon=lon, ctr_alt=0.0, init_alt=0.0,
                    start=seconds(t0, r['t'], base), duration=(t1 - r['t']) / 1000.0, n_points=n)
    out = {}
    per = collections.Counter(e['gr'] for e in E)
    nev = lambda g: per[g['id']]
    perf = collections.Counter(fl[e['gr']] for e in E)
    out['flash'] = ([child(e, fl[e['gr']]) for e in E],
                    [parent(f, f['t1'], lcfa.float_area(f['area']), perf[f['id']], f['lon'], f['lat']) for f in F])
    out['group'] = ([child(e, e['gr']) for e in E], [parent(g, g['t'], lcfa.float_area(g['area']), nev(g), g['lon'], g['lat']) for g in G])
    ev = []
    for e in E:
        lon, lat = lcfa.event_lonlat([e['lat']], [e['lon']], d['nadir'])
        ev.append(parent(e, e['t'], 0.0, 1, float(lon[0]), float(lat[0])))
    out['event'] = ([child(e, e['id']) for e in E], ev)
    return out


TOL = dict(flash_id=0, n_points=0, time=1e-6, start=1e-6, duration=1e-5)


def rows(table, names):
    return sorted(tuple(float(r[n]) for n in names) for r in table)


def compare(got, want, what, trace):
    for level, (ch, pa) in want.items():
        for part, g, w in (('children', got[level][0], ch), ('parents', got[level][1], pa)):
            require(len(g) == len(w), '%s: %d %s at %s level, expected %d', what, len(g), part, level, len(w))
            if not w:
                continue
            names = list(w[0])
            for n in names:
                require(n in g.dtype.names, '%s: no column %s', what, n)
            # match rows by identity columns; compare all values
            key = lambda r: tuple(round(float(r[n]), 3) for n in ('flash_id', 'time' if part == 'children' else 'start', 'lat' if part == 'children' else 'ctr_lat', 'lon' if part == 'children' else 'ctr_lon'))
            gs, ws = sorted(g, key=key), sorted(w, key=key)
            for a, b in zip(gs, ws):
                for n in names:
                    tol = TOL.get(n, 1e-6 * abs(b[n]) + 1e-12)
                    require(abs(float(a[n]) - b[n]) <= tol, '%s: %s of %s %s (%s level) is %s, expected %s', what, n, part, b['flash_id'], level, float(a[n]), b[n])
                    trace.agree()


class Sink(object):
    def __init__(self, log, name):
        self.log, self.name = log, name

    def send(self, pair):
        self.log.setdefault(self.name, []).append((pair[0].copy(), pair[1].copy()))


def joined(chunks):
    return {lv: (np.concatenate([c[lv][0] for c in chunks]), np.concatenate([c[lv][1] for c in chunks])) for lv in ('flash', 'group', 'event')}


def selected(d, sel):
    d = lcfa.filled(d)
    fl = {g['id']: g['fl'] for g in d['G']}
    ok = set()
    for f in d['F']:
        ng, ne = sum(g['fl'] == f['id'] for g in d['G']), sum(fl[e['gr']] == f['id'] for e in d['E'])
        if ne < sel.get('min_events', 0) or ng < sel.get('min_groups', 0):
            continue
        if 'lon_range' in sel and not sel['lon_range'][0] < f['lon'] < sel['lon_range'][1]:
            continue
        if 'lat_range' in sel and not sel['lat_range'][0] < f['lat'] < sel['lat_range'][1]:
            continue
        at = lambda r: nav.fixed_grid(r['lon'], r['lat'], d['nadir'], 0)
        mine = [at(e) for e in d['E'] if fl[e['gr']] == f['id']]
        for axis, rng in ((0, sel.get('x_range')), (1, sel.get('y_range'))):
            if rng and not rng[0] < at(f)[axis] < rng[1]:
                break
            mine = [p for p in mine if not rng or rng[0] < p[axis] < rng[1]]
        else:
            if mine:
                ok.add(f['id'])
    return ok


def check_table(case, trace):
    F, G, E = hier.build(case['sizes'], case['parents'], case['scheme'])
    d = dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E], flash_id_bytes=4 if case['scheme'] == 'mixed' else 2)
    base = BASES[case['base']]
    if case['scheme'] == 'mixed':
        # times finer than a millisecond
        d = dict(lcfa.filled(d), tscale=.25)
        for lvl, part in (('F', .25), ('G', .5), ('E', .75)):
            for r in d[lvl]:
                r['t'], r['t1'] = r['t'] + part, r['t1'] + .5
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    for n in (1, 2, 3, 20000):
        got = joined(read_flashes(glm, None, base_date=base, clip_events=False, nadir_lon=-75.0, chunk_size=n))
        compare(got, model(d, base), 'chunks of %d' % n, trace)
        log = {}
        read_flashes(glm, {k: Sink(log, k) for k in ('flash', 'group', 'event')}, base_date=base, clip_events=False, nadir_lon=-75.0, chunk_size=n)
        sent = {lv: (np.concatenate([c[0] for c in log[lv]]), np.concatenate([c[1] for c in log[lv]])) for lv in log}
        compare(sent, model(d, base), 'sent in chunks of %d' % n, trace)
        trace.step(n, [rows(got[lv][1], ('flash_id', 'start', 'area')) for lv in got])
    compare(mimic_lma_dataset(glm.dataset, base), model(d, base), 'whole dataset', trace)
    for sel in SELECT:
        ids = selected(d, sel)
        for n in (1, 20000):
            chunks = read_flashes(glm, None, base_date=base, clip_events=False, nadir_lon=-75.0, chunk_size=n, **sel)
            if not ids:
                require(not chunks or sum(len(c['flash'][1]) for c in chunks) == 0, 'selection %s gives flashes', sel)
                continue
            compare(joined(chunks), model(d, base, ids), 'selection %s' % sel, trace)
        trace.step(sorted(sel), sorted(ids))


def check_large(case, trace):
    """More flashes than the default size of a chunk."""
    n, (gp, ep) = case['sizes'], hier.spread(case['sizes'], 11)
    fid, gid, eid = lambda i: (i * 7) % n[0] + 300, lambda i: 9000 - i, lambda i: 100000 + (i * 13) % n[2]
    d = dict(F=[dict(id=fid(i)) for i in range(n[0])], G=[dict(id=gid(i), fl=fid(p)) for i, p in enumerate(gp)],
             E=[dict(id=eid(i), gr=gid(p)) for i, p in enumerate(ep)])
    base = BASES[0]
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    want = model(d, base)
    for kw in ({}, dict(chunk_size=64), dict(chunk_size=99), dict(chunk_size=20000)):
        got = joined(read_flashes(glm, None, base_date=base, clip_events=False, nadir_lon=-75.0, **kw))
        compare(got, want, 'many flashes, %s' % kw, trace)
        trace.step(sorted(kw.items()), len(got['flash'][1]))


def check_busy(case, trace):
    """Many events in a flash or group, and ids from the upper half of their range."""
    n, (gp, ep) = case['sizes'], hier.spread(case['sizes'], 7)
    gid, eid = lambda i: 4294967290 - 9 * i, lambda i: 2147483647 - 5 + i
    d = dict(F=[dict(id=65530 + i) for i in range(n[0])], G=[dict(id=gid(i), fl=65530 + p) for i, p in enumerate(gp)],
             E=[dict(id=eid(i), gr=gid(p)) for i, p in enumerate(ep)])
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    got = joined(read_flashes(glm, None, base_date=BASES[0], clip_events=False, nadir_lon=-75.0))
    compare(got, model(d, BASES[0]), 'many events', trace)
    trace.step(n, got['flash'][1]['n_points'].tolist(), got['group'][1]['n_points'].tolist())


def check_crowd(case, trace):
    """More flashes in a file of a collection than are read at a time."""
    n = case['n']
    d = dict(F=[dict(id=1 + i) for i in range(n)], G=[dict(id=70000 + i, fl=1 + i) for i in range(n)], E=[dict(id=200000 + i, gr=70000 + i) for i in range(n)])
    path = lcfa.write(d, core.scratch())
    (ev, fl), = list(GLMncCollection([path], base_date=BASES[0]))
    compare({'flash': (ev, fl)}, {'flash': model(d, BASES[0])['flash']}, 'crowded file', trace)
    trace.step(len(ev), len(fl))


def check_empty(case, trace):
    d = dict(F=[], G=[], E=[])
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    for base in BASES:
        for sel in ({}, dict(min_events=1)):
            chunks = read_flashes(glm, None, base_date=base, clip_events=False, nadir_lon=-75.0, **sel)
            require(sum(len(c[lv][k]) for c in chunks for lv in c for k in (0, 1)) == 0, 'rows from an empty file')
            trace.agree()
    trace.step('empty')


def file_of(name):
    start = {'three': '2018-07-02T04:33:00', 'one': '2018-07-02T04:33:20', 'quiet': '2018-07-02T04:33:40', 'unsorted': '2018-07-02T23:59:40', 'split': '2018-07-01T12:00:00.500'}[name]
    if name == 'quiet':
        return dict(F=[], G=[], E=[], start=start)
    if name == 'unsorted':
        return dict(F=[dict(id=9), dict(id=2), dict(id=65535)], G=[dict(id=50, fl=2), dict(id=7, fl=9), dict(id=90000, fl=65535), dict(id=8, fl=2)],
                    E=[dict(id=3, gr=8), dict(id=1, gr=7), dict(id=70000, gr=90000), dict(id=2, gr=50), dict(id=9, gr=8)], start=start)
    return lcfa.tree({'three': [[1], [2, 1], [3]], 'one': [[1]], 'split': [[2], [1, 1]]}[name], start=start)


def check_collection(case, trace):
    base = BASES[case['base']]
    ds = [file_of(n) for n in case['files']]
    paths = [lcfa.write(d, core.scratch()) for d in ds]
    for sel in SELECT[:-4]:
        kw = {dict(min_events='min_points').get(k, k): v for k, v in sel.items()}
        col = GLMncCollection(paths, base_date=base, **kw)
        starts = [lcfa.when(d['start']).replace(microsecond=0) for d in ds]
        require(sorted(col.times) == sorted(starts), 'times %s, expected %s', col.times, starts)
        for d, t in zip(ds, starts):
            ev, fl = col.data_for_time(t)
            want = model(d, base, selected(d, sel))
            compare({'flash': (ev, fl)}, {'flash': want['flash']}, 'file %s, selection %s' % (d['start'], sel), trace)
            trace.step(t, sorted(sel), len(ev), len(fl))


def check_series(case, trace):
    d = file_of(case['file'])
    path = lcfa.write(d, core.scratch())
    t = lcfa.when(d['start']).replace(microsecond=0)
    start, end = t - dt.timedelta(0, 20), t + dt.timedelta(0, 40)
    kw, base = {}, dt.datetime(start.year, start.month, start.day)
    if case['base'] is not None:
        base = kw['base_date'] = BASES[case['base']]
    for sel in SELECT[:-4]:
        series = TimeSeriesGLMFlashSubset([path], start, end, dt.timedelta(0, 20), **dict(kw, **sel))
        require(series.base_date == base, 'base date %s, expected %s', series.base_date, base)
        require(list(series.lma.times) == [t], 'times %s', series.lma.times)
        (ev, fl), = list(series.lma)
        compare({'flash': (ev, fl)}, {'flash': model(d, base, selected(d, sel))['flash']}, 'series, selection %s' % sel, trace)
        trace.step(t, sorted(sel), len(ev), len(fl))
