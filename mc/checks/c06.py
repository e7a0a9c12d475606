"""C06: aggregating events by location conserves what they carry."""
import itertools

import numpy as np
import xarray as xr

from mc import hier, lcfa
from mc.core import require, digest
from glmtools.io import glm as G

BOUNDS = {
    'quick': 'ids: all pairs among 13 x 13 cells at ends, middle and field-of-view edges of 7 ranges/steps and cells 2^16 to 2^33 numbers after them or at the lengths of 9 other kinds of rows, 3 positions inside each cell; '
             'tables: all trees up to 2 flashes, 2 groups, 3 events and 3/3/3 chains with every assignment of events to 3 cells out of 3 triples of cells, with values all different and all equal; 3 other steps and ranges; 5 large trees (up to 70,000 events, 2,103 flashes) on 3 cells and on one',
    'thorough': 'ids: 25 x 25 cells, 10 ranges/steps; tables: all trees up to 3 flashes, 3 groups, 4 events, every assignment to 4 cells, 3 placements, values all different and all equal; other steps and large trees as in quick',
}
ASSUMPTIONS = ['every flash has a group and every group an event, as after opening']

RANGES = [(28e-6, (-0.31, 0.31), (-0.31, 0.31)), (56e-6, (-0.31, 0.31), (-0.31, 0.31)), (0.1, (0.0, 1.0), (0.0, 1.0)),
          (0.25, (-1.0, 1.0), (0.0, 0.5)), (28e-6, (-0.01, 0.02), (0.05, 0.06)), (0.3, (-1.0, 1.0), (-2.0, 0.5)), (10e-6, (-0.31, 0.31), (-0.31, 0.31)), (1.0, (0.0, 4.0), (0.0, 70000.0)),
          (5e-6, (-0.31, 0.31), (-0.31, 0.31)), (1e-6, (-0.31, 0.31), (-0.2, 0.31))]
TRIPLES = {
    'near': [(11000, 14000), (11001, 14000), (11000, 14001), (10999, 14001)],
    'rows': [(1, 5000), (1, 5001), (22141, 5000), (0, 5002)],      # ends of consecutive rows
    'corner': [(6253, 6253), (15889, 15889), (6253, 15889), (15889, 6253)],
}


# discretisation step and ranges other than the default: cells of 3 steps
CUSTOM = [(28e-6, (-0.31, 0.31), (-0.31, 0.31)), (56e-6, (-0.31, 0.31), (-0.31, 0.31)), (112e-6, (-0.2, 0.2), (-0.15, 0.31)), (9.6e-6, (-0.31, 0.31), (-0.31, 0.31))]
LARGE = [(300, 300, 300), (2103, 2103, 4207), (1, 1, 70000), (1, 300, 900), (3, 70, 2400)]


def cases(tier):
    th = tier == 'thorough'
    for sizes in LARGE:
        yield dict(kind='large', sizes=list(sizes))
    for i in range(len(RANGES)) if th else [0, 1, 2, 3, 4, 8, 9]:
        yield dict(kind='ids', r=i, n=12 if th else 6)
    fams = [(1, 1, 1), (1, 1, 2), (1, 2, 2), (2, 2, 2), (1, 1, 3), (1, 2, 3), (2, 2, 3), (3, 3, 3), (1, 3, 3), (2, 3, 3)]
    if th:
        fams += [(3, 3, 4), (2, 2, 4)]
    ncell = 4 if th else 3
    for i, sizes in itertools.product(range(1, len(CUSTOM)), [(1, 1, 2), (2, 2, 2), (1, 2, 3)]):
        for parents in hier.forests(sizes):
            if not any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                yield dict(kind='table', sizes=list(sizes), parents=parents, cells='near', scheme='down', ncell=ncell, same=False, custom=i)
    for sizes in fams:
        for parents in hier.forests(sizes):
            if any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                continue
            for t in TRIPLES:
                if sum(sizes) > 7 and t != 'near' and not th:
                    continue
                for same in (False, True):
                    if same and t == 'corner':
                        continue
                    yield dict(kind='table', sizes=list(sizes), parents=parents, cells=t, scheme='u16' if t == 'rows' else 'down', ncell=ncell, same=same)


def grid_ids(scale, rng, n):
    m = (rng[1] - rng[0]) / scale
    top = int(m - 1e-9)       # index of the last cell that holds any point of the range
    mid = top // 2
    c = set(range(0, n // 3 + 1)) | set(range(max(0, top - n // 3), top + 1)) | set(range(mid - n // 6, mid + n // 6 + 1))
    return sorted(i for i in c if 0 <= i <= top), m


def check(case, trace):
    if case['kind'] == 'ids':
        scale, xr_, yr_ = RANGES[case['r']]
        xs, mx = grid_ids(scale, xr_, case['n'])
        ys, my = grid_ids(scale, yr_, case['n'])
        pts, cells = [], []
        some = list(itertools.product(xs, ys))
        # numbered along rows or columns, these are 2^16, 2^31, 2^32 ... after another
        for size, w, base in itertools.product((2 ** 16, 2 ** 31, 2 ** 32, 2 ** 33), (-1, 0, 1, 2), ((0, 0), (1, 0), (0, 1))):
            for m, flip in ((mx, False), (my, True)):
                b, a = divmod(size, int(m) + w)
                i, j = (b, a) if flip else (a, b)
                i, j = i + base[0], j + base[1]
                if i + 1 < mx and j + 1 < my:
                    some.append((i, j))
        # numbered with rows of another length, these share a number
        for w in sorted({int(v) + e for v in (0.62 / 28e-6, mx / 2, my / 2, mx, my, 2 ** 15, 2 ** 16, 1e4, 1e5) for e in (-1, 0, 1, 2)}):
            for i, j in ((w, 0), (w + 1, 0), (w, 1), (0, 1), (1, 1), (0, 2)):
                some += [(a, b) for a, b in ((i, j), (j, i)) if 0 <= a < mx - 1 and 0 <= b < my - 1]
        for i, j in dict.fromkeys(some):
            for fx, fy in ((0.5, 0.5), (0.1, 0.9), (0.9, 0.1)):
                if i + fx < mx and j + fy < my:
                    pts.append((xr_[0] + (i + fx) * scale, yr_[0] + (j + fy) * scale))
                    cells.append((i, j))
        x, y = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        ids = G.discretize_2d_location(x, y, scale, xr_, yr_)
        require(ids.shape == x.shape, 'one id per location')
        by_cell, by_id = {}, {}
        for c, i in zip(cells, ids):
            i = int(i)
            require(by_cell.setdefault(c, i) == i, 'cell %s has ids %s and %s', c, by_cell[c], i)
            require(by_id.setdefault(i, c) == c, 'cells %s and %s share id %s', by_id[i], c, i)
            trace.step(i)
        trace.agree(len(cells) * 2)
        return
    if case['kind'] == 'large':
        # values repeat; cells are met in turn, or all events share one
        case = dict(case, parents=hier.spread(case['sizes'], 11), scheme='large', cells='near', ncell=3, same=True)
        assigns = [[i % 3 for i in range(case['sizes'][2])], [0] * case['sizes'][2]]
    else:
        assigns = None
    levels = hier.build(case['sizes'], case['parents'], case['scheme'])
    F, Gr, E = levels
    k = 0 if case['same'] else 1        # equal values tell whether each is counted
    d = dict(F=[dict(id=r[0], area=1000 + k * 700 * ((i * 2) % 3)) for i, r in enumerate(F)], G=[dict(id=r[0], fl=r[1], area=100 + k * 90 * i) for i, r in enumerate(Gr)],
             E=[dict(id=r[0], gr=r[1], energy=1 << (k * i)) for i, r in enumerate(E)],
             flash_id_bytes=4 if case['kind'] == 'large' else 2, start='2018-07-02T04:33:00' + ('.6' if case['same'] else ''))
    S, rx, ry = CUSTOM[case.get('custom', 0)]
    kw = dict(scale_factor=S, x_range=rx, y_range=ry) if case.get('custom') else {}
    ds0 = G.GLMDataset(lcfa.decoded(d), ellipse_rev=0).dataset
    cells = TRIPLES[case['cells']][:case['ncell']] if not kw else [(int(-rx[0] / S) + a, int(-ry[0] / S) + b) for a, b in ((1000, 700), (1001, 700), (1000, 701), (999, 701))][:case['ncell']]
    farea = dict(zip((int(i) for i in ds0.flash_id.values), (float(a) for a in ds0.flash_area.values)))
    garea = dict(zip((int(i) for i in ds0.group_id.values), (float(a) for a in ds0.group_area.values)))
    for r in d['F']:
        require(abs(farea[r['id']] - lcfa.float_area(r['area'])) < 0.01, 'flash area')
    energy = {r['id']: r['energy'] * float(lcfa.E_SCALE) * 1e9 for r in d['E']}
    gfl = {r[0]: r[1] for r in Gr}
    for assign in assigns or itertools.product(range(len(cells)), repeat=len(E)):
        ds = ds0.copy()
        frac = [(0.5, 0.5)] * 4 if case['same'] else [(0.5, 0.5), (0.25, 0.75), (0.75, 0.25), (0.4, 0.3)]
        pos = {r[0]: (rx[0] + (cells[a][0] + frac[k % 4][0]) * S, ry[0] + (cells[a][1] + frac[k % 4][1]) * S)
               for k, (r, a) in enumerate(zip(E, assign))}
        ids = [int(i) for i in ds.event_id.values]
        ds['event_x'] = ('number_of_events', np.array([pos[i][0] for i in ids]))
        ds['event_y'] = ('number_of_events', np.array([pos[i][1] for i in ids]))
        before = digest(ds)
        out = G.get_lutevents(ds, **kw)
        require(digest(ds) == before, 'the given dataset was modified')
        want = []
        for c in sorted(set(assign)):
            ev = [r for r, a in zip(E, assign) if a == c]
            gs = {r[1] for r in ev}
            fs = {gfl[g] for g in gs}
            want.append((round(sum(pos[r[0]][0] for r in ev) / len(ev), 10), sum(pos[r[0]][1] for r in ev) / len(ev),
                         sum(energy[r[0]] for r in ev), len(ev), len(fs), len(gs), sum(farea[f] for f in fs), sum(garea[g] for g in gs), min(farea[f] for f in fs)))
        got = list(zip(*[[float(x) for x in out[v].values] for v in (
            'lutevent_x', 'lutevent_y', 'lutevent_energy', 'lutevent_count', 'lutevent_flash_count', 'lutevent_group_count',
            'lutevent_total_flash_area', 'lutevent_total_group_area', 'lutevent_min_flash_area')]))
        key = lambda r: (round(r[1], 7), round(r[0], 7))
        got.sort(key=key)
        want.sort(key=key)
        require(len(got) == len(want), '%d locations, expected %d', len(got), len(want))
        for g, w in zip(got, want):
            require(all(abs(a - b) <= 2e-6 * max(abs(b), 1e-9) + (2e-9 if k < 2 else 0) for k, (a, b) in enumerate(zip(g, w))), 'location %s, expected %s (cells %s)', g, w, assign[:8])
        require(all(t == ds.product_time.values for t in out.lutevent_time_offset.values), 'time of the locations')
        par = dict(zip((int(i) for i in out.event_id.values), (int(i) for i in out.event_parent_lutevent_id.values)))
        lut = {int(i): (float(x), float(y)) for i, x, y in zip(out.lutevent_id.values, out.lutevent_x.values, out.lutevent_y.values)}
        for r in E:
            p = lut[par[r[0]]]
            require(abs(p[0] - pos[r[0]][0]) <= S and abs(p[1] - pos[r[0]][1]) <= S, 'event %s is linked to a location elsewhere', r[0])
        for v in ds.variables:
            require(np.array_equal(ds[v].values, out[v].values, equal_nan=ds[v].dtype.kind == 'f'), '%s changed', v)
        trace.step(case['sizes'], got)
        trace.agree(len(got) * 9 + len(E))
