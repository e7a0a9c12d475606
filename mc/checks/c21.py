"""C21: merging polygons and measuring areas preserve the covered region."""
import itertools

import numpy as np
from shapely.geometry import Polygon
from shapely.ops import unary_union

from mc.core import require
from glmtools.grid import clipping as cl

BOUNDS = {
    'quick': 'polygons of 5 shapes at 9 offsets (45): each alone, all ordered pairs in both windings and 2 scales, all sets of three; 2 rings of four '
             'rectangles around a hole in every order; all quadrilaterals and triangles on a 4 x 4 lattice for areas (with fractional and whole-numbered corners, and of the size of pixels far from the origin); meshes up to 4 x 4 cells',
    'thorough': 'as quick with 6 shapes at 12 offsets (72 polygons) and a 5 x 5 lattice',
}

SHAPES = [
    [(0, 0), (1, 0), (1, 1), (0, 1)],
    [(0, 0), (2, 0), (2, 2), (0, 2)],
    [(0, 0), (2, 0), (0, 2)],
    [(0, 0), (3, 0), (3, 1), (0, 1)],
    [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)],
    [(1, 0), (2, 1), (1, 2), (0, 1)],
]
OFFS = [(0, 0), (1, 0), (0, 1), (.5, .5), (2, 0), (1.5, -.5), (-.25, 1.25), (4, 4), (0, -1), (3, 1), (.5, 0), (-1.5, 1.5)]
RINGS = [
    [([0, 0], 3, 1), ([0, 1], 1, 2), ([2, 1], 1, 2), ([0, 3], 3, 1)],
    [([0, 0], 4, 1), ([0, .5], 1, 3), ([3, .5], 1, 3), ([0, 3], 4, 1)],
]


def cases(tier):
    th = tier == 'thorough'
    ns, no = (6, 12) if th else (5, 9)
    pool = [(s, o) for s in range(ns) for o in range(no)]
    yield dict(kind='union', first=None, pool=[ns, no])
    for f in range(len(pool)):
        yield dict(kind='union', first=f, pool=[ns, no])
    for r in range(len(RINGS)):
        yield dict(kind='ring', ring=r)
    n = 5 if th else 4
    for i in range(n * n):
        yield dict(kind='area', n=n, first=i)
    for m, k in itertools.product((2, 3, 4), (2, 3, 4)):
        yield dict(kind='mesh', m=m, k=k)


def rect(o, w, h):
    return [(o[0], o[1]), (o[0] + w, o[1]), (o[0] + w, o[1] + h), (o[0], o[1] + h)]


def signed_area(p):
    return 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, list(p[1:]) + [p[0]]))


def winding(p, x, y):
    n = 0
    for (x0, y0), (x1, y1) in zip(p, list(p[1:]) + [p[0]]):
        side = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
        if y0 <= y < y1 and side > 0:
            n += 1
        elif y1 <= y < y0 and side < 0:
            n -= 1
    return n


PTS = [(x, y) for x in np.arange(-2 + .137, 7, .61) for y in np.arange(-2 + .219, 7, .57)]


def judge(polys, scale, trace, what):
    arg = [[(x * scale, y * scale) for x, y in p] for p in polys]
    out = cl.join_polys(arg)
    out = [[(float(x) / scale, float(y) / scale) for x, y in p] for p in out]
    if scale == 1.0 and len(polys) < 3:
        whole = [[(int(x * 4), int(y * 4)) for x, y in p] for p in polys]
        same = cl.join_polys(whole, scale=False)
        require(all(float(v) == int(v) for p in same for q in p for v in q), '%s: whole numbers did not stay whole', what)
        require(abs(abs(sum(signed_area(p) for p in same)) / 16. - unary_union([Polygon(p) for p in polys]).area) < 1e-9, '%s: area of the union of unscaled polygons', what)
    want = unary_union([Polygon(p) for p in polys]).area
    got = abs(sum(signed_area(p) for p in out))
    require(abs(got - want) < 1e-4, '%s: area %s, expected %s', what, got, want)
    for x, y in PTS:
        ins = any(winding(p, x, y) for p in polys)
        n = abs(sum(winding(p, x, y) for p in out))
        require(n == (1 if ins else 0), '%s: point %.2f,%.2f is covered %d times, expected %d', what, x, y, n, ins)
    trace.step(sorted(tuple(sorted((round(a, 3), round(b, 3)) for a, b in p)) for p in out))
    trace.agree(1 + len(PTS))


def check(case, trace):
    k = case['kind']
    if k == 'union':
        ns, no = case['pool']
        pool = [[(x + OFFS[o][0], y + OFFS[o][1]) for x, y in SHAPES[s]] for s in range(ns) for o in range(no)]
        if case['first'] is None:
            for p in pool:
                judge([p], 1.0, trace, 'one')
                judge([p[::-1]], 1e-4, trace, 'one reversed')
            return
        f = case['first']
        for j in range(len(pool)):
            judge([pool[f], pool[j]], 1.0, trace, 'pair %d %d' % (f, j))
            judge([pool[f][::-1], pool[j][::-1]], 1e-4, trace, 'reversed pair %d %d' % (f, j))
        for j in range(f + 1, len(pool)):
            for m in range(j + 1, len(pool)):
                judge([pool[f], pool[j], pool[m]], 1.0, trace, 'three %d %d %d' % (f, j, m))
        return
    if k == 'ring':
        for perm in itertools.permutations(RINGS[case['ring']]):
            judge([rect(*r) for r in perm], 1.0, trace, 'ring')
            judge([rect(*r) for r in perm[:3]], 1.0, trace, 'open ring')
        return
    if k == 'area':
        n = case['n']
        pts = [(i, j) for i in range(n) for j in range(n)]
        a = pts[case['first']]
        quads, want = [], []
        for b, c, d in itertools.permutations(pts, 3):
            for p in ([a, b, c, d], [a, b, c]):
                if len(p) == 3 and d != pts[0]:
                    continue
                w = signed_area(p)
                arr = np.array(p, dtype='f8') + (10.5, -3.25)
                g = float(cl.poly_area(arr[:, 0], arr[:, 1]))
                require(abs(g - w) < 1e-9, 'area of %s is %s, expected %s', p, g, w)
                if len(p) == 4:
                    quads.append(arr)
                    want.append(w)
            trace.steps += 1
        q = np.array(quads)
        g = cl.vectorized_poly_area(q[:, :, 0], q[:, :, 1])
        require(g.shape == (len(want),) and np.allclose(g, want, atol=1e-9), 'areas of many polygons at once')
        # as small as pixels, far from the origin
        far = (q - (10.5, -3.25)) * .07 + (-141.3, 47.9)
        g2 = cl.vectorized_poly_area(far[:, :, 0], far[:, :, 1])
        require(np.abs(g2 - np.array(want) * .0049).max() < 1e-11, 'areas of many small polygons far from the origin')
        for p, w in list(zip(far, want))[::10]:
            require(abs(float(cl.poly_area(p[:, 0], p[:, 1])) - w * .0049) < 1e-11, 'area of %s', p.tolist())
        whole = np.round(q - (10.5, -3.25)).astype(int)
        gi = cl.vectorized_poly_area(whole[:, :, 0], whole[:, :, 1])
        require(np.allclose(gi, want, atol=1e-9), 'areas of many polygons with whole-numbered corners')
        for p, w in list(zip(whole, want))[::50]:
            require(abs(float(cl.poly_area(p[:, 0], p[:, 1])) - w) < 1e-9, 'area of %s', p.tolist())
        trace.step(np.unique(g))
        trace.agree(len(want) * 2)
        return
    x = np.cumsum(np.arange(1, case['m'] + 2)) * 1.0
    y = np.cumsum(np.arange(2, case['k'] + 3)) * 1.0 - 4
    for idx in ('xy', 'ij'):
        X, Y = np.meshgrid(x, y, indexing=idx)
        q = cl.polys_from_quadmesh(X, Y)
        require(q.shape == (X.shape[0] - 1, X.shape[1] - 1, 4, 2), 'shape of cells')
        for i, j in itertools.product(range(X.shape[0] - 1), range(X.shape[1] - 1)):
            cell = Polygon(q[i, j])
            xi, yi = (j, i) if idx == 'xy' else (i, j)
            want = Polygon(rect((x[xi], y[yi]), x[xi + 1] - x[xi], y[yi + 1] - y[yi]))
            require(cell.is_valid and cell.symmetric_difference(want).area < 1e-9, 'cell %d,%d', i, j)
            trace.step(q[i, j])
            trace.agree()
        h, v = cl.lines_from_quadmesh(X, Y, scale=False)
        require(len(h) == X.shape[0] and len(v) == X.shape[1], 'number of lines')
        for i, l in enumerate(h):
            require(np.array_equal(l, np.stack([X[i], Y[i]], axis=-1)), 'line %d', i)
        for j, l in enumerate(v):
            require(np.array_equal(l, np.stack([X[:, j], Y[:, j]], axis=-1)), 'line %d', j)
