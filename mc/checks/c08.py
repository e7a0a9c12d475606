"""C08: slicing polygons by a grid partitions their area over the right cells."""
import itertools
import math

import numpy as np
from shapely.geometry import Polygon

from mc.core import require, digest
from glmtools.grid import clipping as cl
from glmtools.grid import split_events as se

BOUNDS = {
    'quick': '10 meshes (unit, transposed, uneven, microradian scale in both index orders, single cell, single row, rotated, rotated and transposed, sheared) of up to 6 x 5 cells, and a rotated one of 10 x 9; '
             '11 polygons (squares of 0.4 to 3 cells, diamond, triangles, sliver, L shape, a comb that leaves three pieces in one cell, one larger than the mesh) in both windings at every offset of a lattice of 0.7 cells reaching 2 cells beyond the mesh; '
             'lookup by all neighbours, by the 12 nearest, by bounding box of the polygon and by a given box; one polygon at a time and all together, also on meshes of 300 cells along one axis',
    'thorough': 'the same with a lattice of 0.25 cells',
}
ASSUMPTIONS = ['for lookup by neighbours the polygon reaches at most two cells from its centre (regular mesh) or the number of neighbours covers it (irregular mesh)']

SHAPES = {
    'sq4': [(-.2, -.2), (.2, -.2), (.2, .2), (-.2, .2)],
    'sq1': [(-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5)],
    'sq2': [(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)],
    'sq3': [(-1.5, -1.5), (1.5, -1.5), (1.5, 1.5), (-1.5, 1.5)],
    'diamond': [(-1.2, 0.), (0., -1.2), (1.2, 0.), (0., 1.2)],
    'tri': [(-.9, -.7), (1.3, -.2), (.1, 1.4)],
    'sliver': [(-1.6, -.05), (1.6, .02), (1.6, .08), (-1.6, .01)],
    'quad': [(-.8, -.6), (.9, -.7), (.6, .8), (-.7, .55)],
    'ell': [(-1., -1.), (1., -1.), (1., -.3), (-.2, -.3), (-.2, 1.), (-1., 1.)],
    # more than two pieces in one cell
    'comb': [(-.5, -1.), (.45, -1.), (.45, .9), (.25, .9), (.25, -.8), (.05, -.8), (.05, .7), (-.15, .7), (-.15, -.8), (-.3, -.8), (-.3, 1.), (-.5, 1.)],
    'huge': [(-20., -20.), (20., -20.), (20., 20.), (-20., 20.)],
}


def mesh_edges(name):
    """2D edge arrays, whether regular, and a nominal cell size and origin."""
    nx, ny = 6, 5
    x, y = np.arange(nx + 1.0), np.arange(ny + 1.0)
    reg, h, o = True, 1.0, (0.0, 0.0)
    if name == 'uneven':
        x, y = np.array([0, 1.0, 2.5, 3.5, 4.5, 6.0]), np.array([0., 1.5, 2.5, 3.7, 5.0])
    if name in ('micro', 'micro_t'):
        h, o = 56e-6, (-0.0314, 0.0862)
    if name == 'single':
        x, y = np.array([0., 3.0]), np.array([0., 2.5])
    if name == 'row':
        y = np.array([0., 1.0])
    if name in ('long', 'long_t'):
        x = np.arange(301.0)
    if name == 'rot10':
        x, y = np.arange(11.0), np.arange(10.0)
    x, y = x * h + o[0], y * h + o[1]
    X, Y = np.meshgrid(x, y, indexing='ij' if name in ('transposed', 'rot_t', 'micro_t', 'long_t') else 'xy')
    if name in ('rot', 'rot_t', 'rot10', 'shear'):
        reg = False
        if name == 'shear':
            X, Y = X + 0.4 * Y - 1.0, Y + 0.1 * X
        else:
            c, s = math.cos(0.5), math.sin(0.5)
            X, Y = c * X - s * Y, s * X + c * Y
    return X, Y, reg, h, o


MESHES = ['unit', 'transposed', 'uneven', 'micro', 'micro_t', 'single', 'row', 'rot', 'rot_t', 'shear']


def cases(tier):
    step = 0.25 if tier == 'thorough' else 0.7
    for m in MESHES:
        for reg in ((True, False) if m in ('unit', 'uneven', 'transposed') else (None,)):
            for s in SHAPES:
                for wind in (1, -1):
                    yield dict(kind=m, regular=reg, shape=s, wind=wind, step=step)
    for s in ('huge', 'sq3', 'comb'):
        yield dict(kind='rot10', regular=None, shape=s, wind=1, step=1.9 if step > .5 else .6)
    for m in MESHES + ['rot10', 'long', 'long_t']:
        yield dict(kind='many', mesh=m)


FEW = 12


def overlap(poly, cell):
    return Polygon(poly).intersection(Polygon(cell)).area


def model(poly, quads):
    """{(i, j): overlap area} over all cells of the mesh."""
    x0, y0 = np.min(poly, axis=0)
    x1, y1 = np.max(poly, axis=0)
    P = Polygon(poly)
    out = {}
    for i in range(quads.shape[0]):
        for j in range(quads.shape[1]):
            q = quads[i, j]
            if q[:, 0].min() < x1 and q[:, 0].max() > x0 and q[:, 1].min() < y1 and q[:, 1].max() > y0:
                a = P.intersection(Polygon(q)).area
                if a:
                    out[(i, j)] = a
    return out


def cells_of(X, Y):
    M, N = X.shape
    q = np.empty((M - 1, N - 1, 4, 2))
    for i in range(M - 1):
        for j in range(N - 1):
            q[i, j] = [(X[i, j], Y[i, j]), (X[i, j + 1], Y[i, j + 1]), (X[i + 1, j + 1], Y[i + 1, j + 1]), (X[i + 1, j], Y[i + 1, j])]
    return q


def judge(poly, entry, area, cells, h, what):
    """entry is (pieces, fractions, (i, j)) for one polygon."""
    pieces, fracs, (ii, jj) = entry
    P = Polygon(poly)
    true = P.area
    require(abs(area - true) <= 1e-6 * true, '%s: area of the polygon %s, expected %s', what, area, true)
    require(len(pieces) == len(fracs) == len(ii) == len(jj), '%s: lengths differ', what)
    got = {}
    tol = 2e-5 * h * h
    for p, f, i, j in zip(pieces, fracs, ii, jj):
        S = Polygon(p)
        require(abs(S.area - f * true) <= tol, '%s: piece area %s but fraction %s', what, S.area, f)
        B = S.buffer(0)
        grow = 2e-5 * h
        require(B.difference(P.buffer(grow)).area <= tol, '%s: a piece lies outside the polygon', what)
        require(B.difference(Polygon(cells[int(i), int(j)]).buffer(grow)).area <= tol, '%s: a piece lies outside cell %s,%s', what, i, j)
        got[(int(i), int(j))] = got.get((int(i), int(j)), 0.0) + f * true
    want = model(poly, cells)
    for c in set(got) | set(want):
        require(abs(got.get(c, 0.0) - want.get(c, 0.0)) <= tol, '%s: overlap with cell %s is %s, expected %s', what, c, got.get(c, 0.0), want.get(c, 0.0))
    return got


def reach(poly, X, Y, h):
    """Cells from the vertex mean to the farthest vertex along each axis."""
    c = np.mean(poly, axis=0)
    return np.abs(np.asarray(poly) - c).max() / h


def nearby(poly, cells, mid, h):
    """The nearest cells certainly include all that the polygon touches."""
    c = Polygon(poly).centroid
    touched = np.array([cells[k].mean(axis=0) for k in model(poly, cells)])
    for p in (np.mean(poly, axis=0), (c.x, c.y)):
        dist = np.sort(np.hypot(*(mid - p).T))
        if len(touched) and np.hypot(*(touched - p).T).max() > dist[FEW] - 0.2 * h:
            return False
    return len(touched) > 0


def check(case, trace):
    if case['kind'] == 'many':
        return check_many(case, trace)
    X, Y, reg, h, o = mesh_edges(case['kind'])
    if case['regular'] is not None:
        reg = case['regular']
    cells = cells_of(X, Y)
    ncell = cells.shape[0] * cells.shape[1]
    mesh = cl.QuadMeshSubset(X, Y, n_neighbors=ncell, regular=reg)
    slicer = cl.QuadMeshPolySlicer(mesh)
    # another mesh is there at the same time
    twin = cl.QuadMeshPolySlicer(cl.QuadMeshSubset(*np.meshgrid(np.arange(4) * 2.0 + 11, np.arange(5) * 3.0 - 7), n_neighbors=2, regular=True))
    require(np.allclose(mesh.quads, cells), 'cells of the mesh')
    mid = cells.reshape(-1, 4, 2).mean(axis=1)
    few = None if reg or ncell <= FEW else cl.QuadMeshPolySlicer(cl.QuadMeshSubset(X, Y, n_neighbors=FEW, regular=False))
    base = np.array(SHAPES[case['shape']]) * h
    if case['wind'] < 0:
        base = base[::-1]
    x0, x1, y0, y1 = X.min(), X.max(), Y.min(), Y.max()
    st = case['step'] * h
    lattice = itertools.product(np.arange(x0 - 2 * h + 0.013 * h, x1 + 2 * h, st), np.arange(y0 - 2 * h + 0.027 * h, y1 + 2 * h, st))
    if case['shape'] == 'huge':
        lattice = [((x0 + x1) / 2, (y0 + y1) / 2)]
    else:
        # positions exactly on edges and centres too
        lattice = list(lattice) + [(o[0] + a * h, o[1] + b * h) for a, b in itertools.product((-1, 0, .5, 1, 6), (-.5, 0, 1, 5))]
    for dx, dy in lattice:
        poly = base + (dx, dy)
        keep = poly.copy()
        modes = [('box', True)]
        lo, hi = poly.min(axis=0), poly.max(axis=0)
        modes.append(('given', (lo[0] - 0.01 * h, hi[0] + 0.01 * h, lo[1] - 0.01 * h, hi[1] + 0.01 * h)))
        if not reg or reach(poly, X, Y, h) <= 2:
            modes.append(('near', None))
        if few is not None and nearby(poly, cells, mid, h):
            modes.append(('few', None))
        for mname, bbox in modes:
            what = '%s %s %s at %.3f,%.3f by %s' % (case['kind'], 'regular' if reg else 'general', case['shape'], dx / h, dy / h, mname)
            subs, areas = (few if mname == 'few' else slicer).slice([poly], bbox=bbox)
            require(len(subs) == 1 and len(areas) == 1, '%s: one entry per polygon', what)
            got = judge(poly, subs[0], areas[0], cells, h, what)
            require(np.array_equal(poly, keep), '%s: polygon changed', what)
            fr = slicer.quad_frac_from_poly_frac_area(subs[0][1], areas[0], *subs[0][2])
            for f, a, i, j in zip(np.atleast_1d(fr), subs[0][1], *subs[0][2]):
                ca = Polygon(cells[int(i), int(j)]).area
                require(abs(float(f) * ca - a * areas[0]) <= 2e-5 * h * h, '%s: fraction of cell %s,%s is %s', what, i, j, f)
            trace.step(case['kind'], case['shape'], sorted((c, round(v / h / h, 4)) for c, v in got.items()))
            trace.agree(len(got) + 1)


def check_many(case, trace):
    """All shapes at once, through splitting into a table with event ids."""
    X, Y, reg, h, o = mesh_edges(case['mesh'])
    cells = cells_of(X, Y)
    mesh = cl.QuadMeshSubset(X, Y, n_neighbors=cells.shape[0] * cells.shape[1], regular=reg)
    slicer = cl.QuadMeshPolySlicer(mesh)
    cx, cy = X.mean(), Y.mean()
    if case['mesh'].startswith('long'):
        cx = 290.0
    polys, ids = [], []
    for k, (n, s) in enumerate(sorted(SHAPES.items())):
        if n == 'huge':
            continue
        polys.append(np.array(s)[::1 if k % 2 else -1] * h + (cx + (k % 4 - 1.3) * h, cy + (k % 3 - .8) * h))
        ids.append((2 ** 32 if k % 3 else 2 ** 52) - 1 - 11 * ((k * 5) % 13))
    polys.append(np.array(SHAPES['sq1']) * h + (X.max() + 50 * h, Y.max() + 50 * h))     # off the mesh
    ids.append(7)
    for order in ([*range(len(polys))], [*range(len(polys))][::-1]):
        P = [polys[i] for i in order]
        E = [ids[i] for i in order]
        subs, areas = slicer.slice(P, bbox=True)
        for p, s, a in zip(P, subs, areas):
            judge(p, s, a, cells, h, 'many')
        pieces, props = se.split_event_data(subs, areas, slicer, event_ids=E)
        require(len(pieces) == len(props), 'one row per piece')
        for fam, fn in (('event', se.split_event_dataset_from_props), ('group', se.split_group_dataset_from_props), ('flash', se.split_flash_dataset_from_props)):
            t = fn(props, centroid_names=('cx', 'cy'))
            pre = 'split_%s_' % fam
            seen = {}
            rows = zip(pieces, t.cx.values, t.cy.values, t[pre + 'area_fraction'].values, t[pre + 'mesh_area_fraction'].values,
                       t[pre + 'mesh_x_idx'].values, t[pre + 'mesh_y_idx'].values, t['%sparent_%s_id' % (pre, fam)].values)
            for p, x, y, fa, fm, i, j, e in rows:
                S = Polygon(p)
                require(abs(np.mean(p[:, 0]) - x) < 1e-6 * h + 1e-9 and abs(np.mean(p[:, 1]) - y) < 1e-6 * h + 1e-9, 'centre of a piece')
                ca = Polygon(cells[i, j]).area
                require(abs(fm * ca - S.area) <= 3e-5 * h * h, 'mesh fraction of cell %d,%d is %s, expected %s', i, j, fm, S.area / ca)
                seen.setdefault(int(e), {}).setdefault((int(i), int(j)), []).append(fa)
            for p, e in zip(P, E):
                want = model(p, cells)
                A = Polygon(p).area
                got = {c: sum(v) * A for c, v in seen.get(e, {}).items()}
                for c in set(got) | set(want):
                    require(abs(got.get(c, 0) - want.get(c, 0)) <= 3e-5 * h * h, 'event %d cell %s: %s expected %s', e, c, got.get(c, 0), want.get(c, 0))
                trace.agree(len(want))
            trace.step(case['mesh'], fam, sorted(seen))
