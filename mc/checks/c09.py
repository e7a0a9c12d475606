"""C09: corner table interpolation, pixel lookup, saving and loading."""
import itertools
import os
import pickle

import numpy as np
import xarray as xr

from mc import core
from mc.core import require
from glmtools.io import ccd

BOUNDS = {
    'quick': '5 small tables (2 x 2 to 4 x 3 nodes, even and uneven spacing) with affine and scrambled offsets, 3 satellite longitudes, 4 inflations: every node, '
             '5 x 5 positions in and around every cell, all at once, one by one and reversed; shipped table: every node, edge midpoint, cell centre and a ring outside; '
             'pixel lookup: every mask of 2 x 3 and 3 x 3 pixels, 6 other places of the 2 x 3 ones (also beyond 180 degrees), every position on a lattice of half pixels; positions all inside, all outside and mixed with and without extrapolation',
    'thorough': 'as quick with 9 x 9 positions per cell, every mask of 3 x 4 pixels and a lattice of quarter pixels',
}

TABLES = {
    'two': ([0., 1.], [0., 1.]),
    'even': ([-1., 0., 1., 2.], [0., 1., 2.]),
    'uneven': ([-2., 0., .5], [-1., 0., 3.]),
    'narrow': ([0., 10.], [0., 1., 2., 3.]),
    'urad': ([-135000., -131928., -128856.], [-135000., -131448., -127896.]),
}
SHIPPED = os.path.join(core.REPO, 'glmtools', 'io', 'G16_corner_lut_fixedgrid.pickle')


def cases(tier):
    th = tier == 'thorough'
    n = 9 if th else 5
    for t in TABLES:
        for field in ('affine', 'scrambled'):
            for nadir in (0.0, -75.2, 140.73):
                for infl in (1.0, 1.02, 0.5, 3.0):
                    yield dict(kind='quads', table=t, field=field, nadir=nadir, inflate=infl, n=n)
    for part in range(4):
        yield dict(kind='shipped', part=part)
    shapes = [(2, 3), (3, 3)] + ([(3, 4)] if th else [])
    for shp in shapes:
        total = 2 ** (shp[0] * shp[1])
        for lo in range(0, total, 64):
            yield dict(kind='pixels', shape=list(shp), lo=lo, hi=min(total, lo + 64), step=.25 if th else .5)
    # other places, also beyond 180 degrees, as for a satellite at 140 E or 137 W
    for lon0, lat0 in ((-100.0, -50.0), (178.5, 30.0), (-203.0, -1.0), (-180.5, 0.0), (0.0, -2.0), (358.0, 88.0)):
        yield dict(kind='pixels', shape=[2, 3], lo=0, hi=64, step=.25 if th else .5, lon0=lon0, lat0=lat0)
    yield dict(kind='save')
    yield dict(kind='mat')


def grid_of(tab):
    x, y = TABLES[tab]
    # first axis along x in one table and along y in the others, like the shipped table
    return np.meshgrid(np.array(x), np.array(y), indexing='ij' if tab == 'even' else 'xy')


def offsets(X, Y, field):
    c = np.zeros(X.shape + (4, 2))
    sx, sy = np.ptp(X), np.ptp(Y)
    for k in range(4):
        for d in range(2):
            if field == 'affine':
                c[..., k, d] = (.1 + .2 * k - .3 * d) * X / sx + (.05 * k + .4 * d - .2) * Y / sy + [(-1, 1), (-1, -1), (1, -1), (1, 1)][k][d]
            else:
                n = np.arange(X.size).reshape(X.shape)
                c[..., k, d] = ((n * 7 + k * 3 + d * 5) % 11) - 5 + .25 * k
    return c


def check(case, trace):
    {'quads': check_quads, 'shipped': check_shipped, 'pixels': check_pixels, 'save': check_save, 'mat': check_mat}[case['kind']](case, trace)


class Table(object):
    """what the property says about the offsets at a position"""

    def __init__(self, X, Y, C):
        self.node = {(X[i, j], Y[i, j]): C[i, j] for i in range(X.shape[0]) for j in range(X.shape[1])}
        self.keys = np.array(list(self.node))
        self.xs, self.ys = np.unique(X), np.unique(Y)
        self.eps = 1e-9 * (np.ptp(X) + np.ptp(Y))

    def expected(self, px, py):
        """'out': one of these nodes; 'edge': exactly this; 'in': between these four and, for affine tables, this"""
        xs, ys, node, eps = self.xs, self.ys, self.node, self.eps
        if px < xs[0] - eps or px > xs[-1] + eps or py < ys[0] - eps or py > ys[-1] + eps:
            d = np.hypot(self.keys[:, 0] - px, self.keys[:, 1] - py)
            return 'out', [node[tuple(k)] for k in self.keys[d <= d.min() * (1 + 1e-6)]], None
        i = min(max(np.searchsorted(xs, px, 'right') - 1, 0), len(xs) - 2)
        j = min(max(np.searchsorted(ys, py, 'right') - 1, 0), len(ys) - 2)
        u = (px - xs[i]) / (xs[i + 1] - xs[i])
        v = (py - ys[j]) / (ys[j + 1] - ys[j])
        four = (node[xs[i], ys[j]], node[xs[i + 1], ys[j]], node[xs[i], ys[j + 1]], node[xs[i + 1], ys[j + 1]])
        a, b, c, d = four
        mid = (1 - v) * ((1 - u) * a + u * b) + v * ((1 - u) * c + u * d)
        if min(abs(u), abs(v), abs(1 - u), abs(1 - v)) < 1e-12:
            return 'edge', [mid], None
        return 'in', four, mid


def judge(X, Y, C, pts, nadir, infl, trace, wrap=lambda a: a, extrapolate=True, one_by_one=False, affine=False):
    px, py = np.array([p[0] for p in pts]) + nadir, np.array([p[1] for p in pts])
    scale = np.abs(C).max()
    got = np.asarray(ccd.quads_from_corner_lookup(X, Y, C, wrap(px), wrap(py), nadir_lon=nadir, inflate=infl, **({} if extrapolate else dict(extrapolate=False))))
    require(got.shape == (len(pts), 4, 2), 'shape %s', got.shape)
    trace.step(got)
    tab = Table(X, Y, C)
    tol = dict(atol=1e-6 * scale, rtol=1e-7)
    for k, (a, b) in enumerate(pts):
        where, acc, mid = tab.expected(a, b)
        off = (got[k] - np.array([px[k], py[k]])) / infl
        if where == 'out' and not extrapolate:
            require(np.isnan(got[k]).all(), 'position %s,%s outside the table is not missing', a, b)
        elif where == 'in':
            lo, hi = np.min(acc, axis=0), np.max(acc, axis=0)
            require((off >= lo - 1e-6 * scale).all() and (off <= hi + 1e-6 * scale).all(), 'position %s,%s: offsets %s are not between those of the surrounding nodes', a, b, off.tolist())
            if affine:
                require(np.allclose(off, mid, **tol), 'position %s,%s: offsets %s, expected %s', a, b, off.tolist(), mid.tolist())
        else:
            require(any(np.allclose(off, e, **tol) for e in acc), 'position %s,%s: offsets %s, expected %s', a, b, off.tolist(), [e.tolist() for e in acc])
    trace.agree(len(pts))
    if one_by_one:
        rev = np.asarray(ccd.quads_from_corner_lookup(X, Y, C, wrap(px[::-1]), wrap(py[::-1]), nadir_lon=nadir, inflate=infl))
        require(np.allclose(rev[::-1], got, rtol=1e-12), 'order of positions changes footprints')
        for k in range(0, len(pts), max(1, len(pts) // 12)):
            o = np.asarray(ccd.quads_from_corner_lookup(X, Y, C, wrap(px[k:k + 1]), wrap(py[k:k + 1]), nadir_lon=nadir, inflate=infl))
            require(np.allclose(o[0], got[k], rtol=1e-12), 'footprint %d depends on the others', k)
            trace.step(o)
        trace.agree(len(pts))


def check_quads(case, trace):
    X, Y = grid_of(case['table'])
    C = offsets(X, Y, case['field'])
    xs, ys = np.unique(X), np.unique(Y)
    n = case['n']
    fx, fy = [], []
    for e, f in ((xs, fx), (ys, fy)):
        w = e[-1] - e[0]
        for a, b in zip(e[:-1], e[1:]):
            f += [a + (b - a) * t for t in np.linspace(0, 1, n)[:-1]]
        f += [e[-1], e[0] - .31 * w, e[-1] + .37 * w, e[-1] + 2 * w]
    pts = list(itertools.product(fx, fy))
    if case['nadir']:
        # rounding of the shift decides whether a point on the border is inside; both give the same offsets only at nodes
        pts = [(a, b) for a, b in pts if not (a in (xs[0], xs[-1]) and b not in ys) and not (b in (ys[0], ys[-1]) and a not in xs)]
    judge(X, Y, C, pts, case['nadir'], case['inflate'], trace, one_by_one=True, affine=case['field'] == 'affine')
    judge(X, Y, C, pts, case['nadir'], case['inflate'], trace, wrap=lambda a: xr.DataArray(a, dims=('n',)))
    if not case['nadir']:
        # positions given as whole numbers or in single precision
        whole = [p for p in pts if p[0] == round(p[0]) and p[1] == round(p[1])]
        for t in ('i4', 'f4'):
            judge(X, Y, C, whole, 0.0, case['inflate'], trace, wrap=lambda a: a.astype(t))
    if case['inflate'] == 1.0:
        # shrunk to nothing
        px, py = np.array([p[0] for p in pts]) + case['nadir'], np.array([p[1] for p in pts])
        got = np.asarray(ccd.quads_from_corner_lookup(X, Y, C, px, py, nadir_lon=case['nadir'], inflate=0.0))
        require(np.allclose(got, np.stack([px, py], axis=-1)[:, None, :], rtol=1e-12, atol=1e-9), 'footprints of no size do not lie at the positions')
        trace.step('nothing', got)
    off = [p for p in pts if not (p[0] in (xs[0], xs[-1]) or p[1] in (ys[0], ys[-1]))]
    judge(X, Y, C, off, case['nadir'], case['inflate'], trace, extrapolate=False)
    out = [p for p in off if not (xs[0] <= p[0] <= xs[-1] and ys[0] <= p[1] <= ys[-1])]
    ins = [p for p in off if p not in out]
    for some in (out, out[:1], ins, ins[:1], ins[:1] + out[:1], out[:1] + ins[:1]):
        for extrapolate in (True, False):
            judge(X, Y, C, some, case['nadir'], case['inflate'], trace, extrapolate=extrapolate)


def check_shipped(case, trace):
    with open(SHIPPED, 'rb') as f:
        ref = pickle.load(f)
    X, Y, C = ccd.load_pixel_corner_lookup(SHIPPED)
    for a, b in zip((X, Y, C), ref):
        require(np.array_equal(a, b), 'loaded table differs from the file')
    X, Y, C = np.asarray(X, dtype='f8'), np.asarray(Y, dtype='f8'), np.asarray(C, dtype='f8')
    xs, ys = np.unique(X), np.unique(Y)
    mx, my = (xs[1:] + xs[:-1]) / 2, (ys[1:] + ys[:-1]) / 2
    p = case['part']
    if p == 0:
        pts = list(itertools.product(xs, ys))
    elif p == 1:
        pts = [(a, b) for a, b in itertools.product(mx, ys[1:-1])] + [(a, b) for a, b in itertools.product(xs[1:-1], my)]
    elif p == 2:
        pts = list(itertools.product(mx, my))
    else:
        w = (xs[-1] - xs[0])
        pts = [(a, b) for a in list(xs[::6] + 7) + [xs[0] - 1000, xs[-1] + 1000] for b in (ys[0] - 900, ys[-1] + 900, ys[0] - w)]
        pts += [(a, b) for b in list(ys[::6] + 7) for a in (xs[0] - 900, xs[-1] + 900, xs[-1] + w)]
    judge(X, Y, C, pts, 0.0, 1.0, trace)
    # in radians, as used for gridding
    judge(X * 1e-6, Y * 1e-6, C * 1e-6, [(a * 1e-6, b * 1e-6) for a, b in pts], 0.0, 1.0, trace)


def check_pixels(case, trace):
    ni, nj = case['shape']
    I, J = np.meshgrid(np.arange(ni), np.arange(nj), indexing='ij')
    lon0, lat0 = case.get('lon0', -100.0), case.get('lat0', 30.0)
    lons = lon0 + 1.0 * I + .1 * J
    lats = lat0 + 1.2 * J - .07 * I
    qs = np.array([(a, b) for a in np.arange(lon0 - 1.13, lon0 + ni + .5, case['step']) for b in np.arange(lat0 - 1.13, lat0 + 1.2 * nj + .5, case['step'])])
    for m in range(case['lo'], case['hi']):
        mask = np.array([(m >> k) & 1 for k in range(ni * nj)], dtype=bool).reshape(ni, nj)
        if mask.all():
            continue
        forms = []
        half = mask & ((I + J) % 2 == 0)
        forms.append((np.ma.masked_array(lons, mask), np.ma.masked_array(lats, mask)))
        forms.append((np.ma.masked_array(lons, half), np.ma.masked_array(lats, mask & ~half)))
        if not mask.any():
            forms.append((lons, lats))
            forms.append((np.ma.masked_array(lons), np.ma.masked_array(lats)))
        for lo, la in forms:
            lookup, Xg, Yg = ccd.create_pixel_lookup(lo, la)
            dist, idx = lookup.query(qs)
            xi, yi = np.asarray(Xg)[idx[:, 0]], np.asarray(Yg)[idx[:, 0]]
            require(not mask[xi, yi].any(), 'mask %s: a masked pixel is returned', mask.tolist())
            d2 = (qs[:, 0, None, None] - lons) ** 2 + (qs[:, 1, None, None] - lats) ** 2
            d2[:, mask] = np.inf
            best = d2.reshape(len(qs), -1).min(axis=1)
            got = d2[np.arange(len(qs)), xi, yi]
            require(np.allclose(got, best, rtol=1e-9, atol=1e-12), 'mask %s: a pixel is not the nearest', mask.tolist())
            require(np.allclose(dist[:, 0] ** 2, best, rtol=1e-9, atol=1e-12), 'distances')
            require(len(np.asarray(Xg)) == (~mask).sum(), 'number of pixels')
            trace.step(xi, yi)
            trace.agree(len(qs))


def check_save(case, trace):
    X, Y = grid_of('even')
    for field in ('affine', 'scrambled'):
        C = offsets(X, Y, field)
        for to_file in (False, True):
            if to_file:
                f = os.path.join(core.scratch(), 'corner.pickle')
                ccd.save_pixel_corner_lookup(X, Y, C, filename=f)
                back = ccd.load_pixel_corner_lookup(f)
            else:
                back = pickle.loads(ccd.save_pixel_corner_lookup(X, Y, C))
            require(len(back) == 3 and all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(back, (X, Y, C))), 'corner table changed by saving')
            trace.step(back[2])
            trace.agree()
    mask = np.zeros(X.shape, dtype=bool)
    mask[1, 1] = True
    lo, la = np.ma.masked_array(X, mask), np.ma.masked_array(Y, mask)
    lookup, xg, yg = ccd.create_pixel_lookup(lo, la)
    q = np.array([(.2, .3), (1.6, 1.9), (-5, 4), (0.1, 1.1)])
    want = lookup.query(q)[1]
    for to_file in (False, True):
        if to_file:
            f = os.path.join(core.scratch(), 'pixel.pickle')
            ccd.save_pixel_lookup(lookup, xg, yg, lo, la, filename=f)
            back = ccd.load_pixel_lookup(f)
        else:
            back = pickle.loads(ccd.save_pixel_lookup(lookup, xg, yg, lo, la))
        require(np.array_equal(back[0].query(q)[1], want) and np.array_equal(back[1], xg) and np.array_equal(back[2], yg), 'lookup changed by saving')
        for a, b in zip(back[3:5], (lo, la)):
            require(np.array_equal(np.ma.getmaskarray(a), mask) and np.array_equal(a[~mask], b[~mask]), 'pixel positions changed by saving')
        trace.step(want)
        trace.agree()


def check_mat(case, trace):
    from scipy.io import savemat
    for tab, field in itertools.product(('uneven', 'narrow', 'even'), ('affine', 'scrambled')):
        X, Y = grid_of(tab)
        C = offsets(X, Y, field)
        for names in (None, dict(y_grid='yy', x_grid='xx', x_corners=['a', 'b', 'c', 'd'], y_corners=['e', 'f', 'g', 'h'])):
            kw = names or dict(y_grid='lat_grid', x_grid='lon_grid', x_corners=['nwlon', 'swlon', 'selon', 'nelon'], y_corners=['nwlat', 'swlat', 'selat', 'nelat'])
            d = {kw['x_grid']: X, kw['y_grid']: Y}
            for k in range(4):
                d[kw['x_corners'][k]] = C[:, :, k, 0]
                d[kw['y_corners'][k]] = C[:, :, k, 1]
            f = os.path.join(core.scratch(), 'lut.mat')
            savemat(f, d)
            x, y, c = ccd.read_official_corner_lut(f, **(names or {}))
            require(np.array_equal(x, X) and np.array_equal(y, Y) and np.array_equal(c, C), 'corner table read wrongly')
            trace.step(c)
            trace.agree()
