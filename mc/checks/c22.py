"""C22: events, groups and flashes split over a grid, level by level."""
import datetime as dt
import itertools
import os
import pickle

import numpy as np
from shapely.geometry import MultiPoint, Point, Polygon
from shapely.ops import unary_union

from mc import core, hier, lcfa, nav
from mc.core import require, digest
from glmtools.grid.clipping import QuadMeshSubset
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import mimic_lma_dataset, read_flash_chunk

BOUNDS = {
    'quick': 'all trees of up to 2 flashes, 2 groups and 2 events with every assignment of the events to 4 or 5 places (side by side, touching at a corner, apart) on 3 grids (0.6 and 2.3 footprints, and one that holds part of the lightning); '
             'all trees of up to 2 flashes, 2 groups and 3 events with every assignment to 3 or 4 places, the grids in turn; in fixed grid angles and in degrees; the whole file and each flash alone; 4 events in a row (widths of 5 and 13 cells) in every order; events in a ring; footprints grow over the table',
    'thorough': 'the same on grids of 0.23, 0.6, 1 and 2.3 footprints in both orders of the axes, and all trees of up to 2 flashes, 3 groups and 3 events and of 1 flash, 2 groups and 4 events',
}
ASSUMPTIONS = ['the footprints of a group or flash leave no hole (the case with a hole is a known finding)', 'coordinate systems of the companion package']

PLACES = [(0, 0), (1, 0), (1, 1), (3.3, .4), (-1.5, 2)]
WIDE = [(0, 0), (1, 0), (2, 0), (2, 1)]
BASE = dt.datetime(2018, 7, 2)
NADIR = -75.0
INFLATE = 1.02


def cases(tier):
    th = tier == 'thorough'
    small = [('fine', 0), ('coarse', 1), ('part', 0)]
    if th:
        small = [(m, o) for m in ('finer', 'fine', 'one', 'coarse', 'part') for o in (0, 1)]
    # sizes, number of places, grids per tree
    fams = [((1, 1, 1), 5, 9), ((1, 1, 2), 5, 9), ((1, 2, 2), 5, 9), ((2, 2, 2), 4, 9), ((1, 1, 3), 4, 1), ((1, 2, 3), 4, 1), ((2, 2, 3), 3, 1)]
    if th:
        fams = [((1, 1, 1), 5, 99), ((1, 1, 2), 5, 99), ((1, 2, 2), 5, 99), ((2, 2, 2), 5, 99), ((1, 1, 3), 5, 4), ((1, 2, 3), 4, 4), ((2, 2, 3), 4, 3), ((2, 3, 3), 4, 1), ((1, 2, 4), 3, 1)]
    n = 0
    for sizes, places, k in fams:
        for parents in hier.forests(sizes):
            if any(set(range(m)) - set(p) for m, p in zip(sizes, parents)):
                continue
            for fixed in (True, False):
                for j in range(min(k, len(small))):
                    mesh, order = small[(n + j) % len(small)]
                    yield dict(kind='split', sizes=list(sizes), parents=parents, fixed=fixed, mesh=mesh, order=order, places=places, scheme=('up', 'u16', 'mixed')[(n // 2 + j) % 3])
                n += 1
    for fixed, mesh, order in itertools.product((True, False), ('fine', 'finer'), (0, 1)):
        yield dict(kind='wide', fixed=fixed, mesh=mesh, order=order)
    for fixed in (True, False):
        yield dict(kind='ring', fixed=fixed)


def finding_key(case, err):
    return 'footprints-around-a-hole' if case['kind'] == 'ring' else None


def check(case, trace):
    if case['kind'] == 'ring':
        sizes, parents, places = (1, 1, 8), [[0], [0] * 8], [(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)]
        return run(dict(case, sizes=sizes, parents=parents, scheme='up', mesh='fine', order=0), [tuple(places)], trace)
    if case['kind'] == 'wide':
        for sizes, parents in (((1, 1, 4), [[0], [0, 0, 0, 0]]), ((1, 2, 4), [[0, 0], [0, 0, 0, 1]]), ((2, 2, 4), [[0, 1], [0, 1, 1, 1]])):
            run(dict(case, sizes=sizes, parents=parents, scheme='up'), list(itertools.permutations(WIDE)) if case['mesh'] == 'fine' else [tuple(WIDE)], trace)
        return
    combos = itertools.product(PLACES[:case['places']], repeat=case['sizes'][2])
    run(case, combos, trace)


def run(case, combos, trace):
    fixed = case['fixed']
    half = 250e-6 if fixed else 0.07         # of a footprint
    x0, y0 = (0.013, 0.0457) if fixed else (-71.3, 14.9)
    F, G, E = hier.build(case['sizes'], case['parents'], case['scheme'])
    d = dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E],
             flash_id_bytes=4 if case['scheme'] == 'mixed' else 2, nadir=NADIR)
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    table = corner_table(fixed, half)
    xe, ye, mesh = grid(case['mesh'], case['order'], x0, y0, 2 * half)
    fl = {r[0]: r[1] for r in G}
    for combo in combos:
        pos = {r[0]: (x0 + p[0] * 2 * half, y0 + p[1] * 2 * half) for r, p in zip(E, combo)}
        put(glm.dataset, pos, fixed)
        groups = [None] + ([[f[0]] for f in F] if len(F) > 1 else [])
        for only in groups:
            data = glm.dataset if only is None else glm.get_flashes(only)
            keep = [r for r in E if only is None or fl[r[1]] in only]
            before = digest(glm.dataset)
            kw = dict(glm=glm, base_date=BASE, nadir_lon=NADIR, fixed_grid=fixed, clip_events=mesh, corner_pickle=table)
            got = read_flash_chunk(data, **kw)
            require(digest(glm.dataset) == before, 'the dataset was changed')
            log = {}
            if only is None:
                read_flash_chunk(data, target={k: Sink(log, k) for k in ('flash', 'group', 'event')}, **kw)
            plain = mimic_lma_dataset(data, BASE)
            for level in ('flash', 'group', 'event'):
                parent = {r[0]: {'flash': fl[r[1]], 'group': r[1], 'event': r[0]}[level] for r in keep}
                judge(level, got[level], plain[level][1], parent, pos, half, fixed, xe, ye, case['order'], '%s level, places %s' % (level, combo), trace)
                if only is None and len(got['flash'][0]):
                    require(len(log.get(level, ())) == 1 and all(digest(a) == digest(b) for a, b in zip(log[level][0], got[level])), '%s level: what is sent differs', level)
            trace.step(case['fixed'], case['mesh'], sorted((int(r['flash_id']), int(r['mesh_xi']), int(r['mesh_yi']), round(float(r['mesh_frac']), 3)) for r in got['flash'][0]))


class Sink(object):
    def __init__(self, log, name):
        self.log, self.name = log, name

    def send(self, pair):
        self.log.setdefault(self.name, []).append((pair[0].copy(), pair[1].copy()))


CORNERS = np.array([(-1, -1), (1, -1), (1, 1), (-1, 1)])


def growth(x, y):
    """Of the footprints with the distance from the satellite, x and y in degrees or in units of 1000 urad."""
    return 1.0 + 1e-3 * x - 5e-4 * y


def corner_table(fixed, half):
    k = 1e6 if fixed else 1.0
    X, Y = np.meshgrid([-3e5, 3e5] if fixed else [-179., 179.], [-3e5, 3e5] if fixed else [-89., 89.])
    s = 1e-3 if fixed else 1.0
    C = growth(X * s, Y * s)[:, :, None, None] * CORNERS * half * k
    path = os.path.join(core.scratch(), 'corners.pickle')
    with open(path, 'wb') as f:
        pickle.dump((X, Y, C), f)
    return path


def grid(name, order, x0, y0, size):
    h = {'finer': .23, 'fine': .6, 'part': .6, 'one': 1.0, 'coarse': 2.3}[name] * size
    xe = np.arange(x0 - 2.77 * size, x0 + 5.1 * size, h)
    ye = np.arange(y0 - 1.31 * size, y0 + 4.2 * size, h)
    if name == 'part':
        xe, ye = xe[:np.searchsorted(xe, x0 + 1.2 * size)], ye[np.searchsorted(ye, y0 - .2 * size):]
    X, Y = np.meshgrid(xe, ye, indexing='xy' if order else 'ij')
    return xe, ye, QuadMeshSubset(X, Y, regular=True)


def put(ds, pos, fixed):
    ids = [int(i) for i in ds.event_id.values]
    a, b = ('event_x', 'event_y') if fixed else ('event_lon', 'event_lat')
    for k, name in enumerate((a, b)):
        ds[name] = (ds[name].dims, np.array([pos[i][k] for i in ids], dtype='f8'))


def footprint(x, y, half, grow, fixed):
    s = half * grow * (growth(x * 1e3, y * 1e3) if fixed else growth(x - NADIR, y))
    return Polygon([(x - s, y - s), (x + s, y - s), (x + s, y + s), (x - s, y + s)])


def judge(level, got, plain, parent, pos, half, fixed, xe, ye, order, what, trace):
    pieces, rows = got
    require(digest(rows) == digest(plain), '%s: the parents differ from those of the unsplit data', what)
    byid = {int(r['flash_id']): r for r in rows}
    shape = {}
    for e, p in parent.items():
        shape.setdefault(p, []).append(footprint(pos[e][0], pos[e][1], half, 1.0 if level == 'event' else INFLATE, fixed))
    shape = {p: unary_union(s) for p, s in shape.items()}
    require(set(byid) == set(shape), '%s: ids %s', what, sorted(byid))
    cell = (xe[1] - xe[0]) * (ye[1] - ye[0])
    frac, power, where = {}, {}, {}
    for r in pieces:
        p = int(r['flash_id'])
        require(p in shape, '%s: piece of %s', what, p)
        i, j = (int(r['mesh_yi']), int(r['mesh_xi'])) if order else (int(r['mesh_xi']), int(r['mesh_yi']))
        require(0 <= i < len(xe) - 1 and 0 <= j < len(ye) - 1, '%s: cell %s,%s', what, i, j)
        frac[p, i, j] = frac.get((p, i, j), 0.0) + float(r['mesh_frac'])
        power[p, i, j] = power.get((p, i, j), 0.0) + float(r['power'])
        require(float(r['alt']) == 0.0, '%s: altitude', what)
        require(abs(float(r['time']) - float(byid[p]['start'])) < 1e-6, '%s: time of a piece of %s is %s, expected %s', what, p, float(r['time']), float(byid[p]['start']))
        where.setdefault((p, i, j), []).append((float(r['lon']), float(r['lat'])))
    want = {}
    for p, s in shape.items():
        x_lo, y_lo, x_hi, y_hi = s.bounds
        for i in range(max(0, np.searchsorted(xe, x_lo) - 1), min(len(xe) - 1, np.searchsorted(xe, x_hi) + 1)):
            for j in range(max(0, np.searchsorted(ye, y_lo) - 1), min(len(ye) - 1, np.searchsorted(ye, y_hi) + 1)):
                c = Polygon([(xe[i], ye[j]), (xe[i + 1], ye[j]), (xe[i + 1], ye[j + 1]), (xe[i], ye[j + 1])])
                o = s.intersection(c)
                if o.area:
                    want[p, i, j] = o
    for k in set(want) | set(frac):
        o = want.get(k)
        a = o.area if o is not None else 0.0
        require(abs(frac.get(k, 0.0) - a / cell) < 1e-4, '%s: %s covers %s of cell %s, expected %s', what, k[0], frac.get(k, 0.0), k[1:], a / cell)
        en = float(byid[k[0]]['total_energy'])
        w = en * a / shape[k[0]].area
        require(abs(power.get(k, 0.0) - w) < 1e-4 * en, '%s: energy of %s in cell %s is %s, expected %s', what, k[0], k[1:], power.get(k, 0.0), w)
        for lon, lat in where.get(k, ()):
            if a < 1e-3 * cell:
                continue
            x, y = nav.fixed_grid_earth(lon, lat, NADIR) if fixed else (lon, lat)
            slack = 2e-6 if fixed else 2e-5
            require(o.convex_hull.distance(Point(x, y)) < slack, '%s: a piece of %s in cell %s is placed at %s,%s', what, k[0], k[1:], lon, lat)
        trace.agree(2)
