"""C10: gridded fields against a cell-by-cell reference model."""
import datetime as dt
import glob
import itertools
import os
import pickle

import numpy as np

from mc import core, hier, lcfa, gridding as M
from mc.core import require
from glmtools.grid.clipping import QuadMeshSubset
from glmtools.grid.make_grids import GLMGridder, GLMlutGridder
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes

BOUNDS = {
    'quick': 'places: 36 sub-cell offsets of single-event flashes in 6 regions of the disk on 7 cell sizes, 2 satellites; '
             'trees: all trees up to 2 flashes, 2 groups, 3 events and 3/3/3 with every assignment of events to 3 positions (two overlapping) and 2 row orders; '
             'divisions: every assignment of 3 flashes to 2 files, both file orders, 3 chunk sizes; grid borders: every position of a ring around all sides and corners; '
             'selections by minimum counts and range; files of one or two events that each lie within one wide cell, by 1 and 2; sequences of up to 2 files with one, two, no and no events on the grid, through the image file; the sample files against their published product',
    'thorough': 'places: 100 offsets, 3 satellites; trees up to 3 events with every assignment to 4 positions in 4 row orders, 2 flashes, 2 groups and 4 events over 3 positions, 3 flashes, 3 groups and 4 events over 2 overlapping positions; divisions over 3 files',
}
ASSUMPTIONS = ['the companion gridding package is replaced by a model of it, checked against the published sample product',
               'events of one 28 microradian location are processed together at their mean position',
               'cell spacing 28 microradians or more']
T0 = dt.datetime(2018, 7, 2, 4, 33)
REGIONS = {'centre': (0.0004, -0.0007), 'conus': (-0.0305, 0.0806), 'se': (0.0713, -0.0752), 'nw': (-0.0946, 0.0921), 'sw': (-0.0811, -0.0855), 'edge': (0.1103, 0.0517)}
SIZES = [(56, 56), (112, 112), (56, 112), (280, 280), (224, 56), (28, 28), (700, 500)]
SITES = [(0, 0), (95, 40), (900, -350), (-210, 30)]       # microradians: 0 and 1 overlap


def cases(tier):
    th = tier == 'thorough'
    for size in SIZES:
        for reg in REGIONS:
            for nadir in (-75.0, -137.0, 140.7)[:3 if th else 2]:
                yield dict(kind='place', size=list(size), region=reg, nadir=nadir, n=10 if th else 6)
    n3 = 4 if th else 3
    fams = [((1, 1, 1), n3), ((1, 1, 2), n3), ((1, 2, 2), n3), ((2, 2, 2), n3), ((1, 2, 3), n3), ((2, 2, 3), n3), ((3, 3, 3), n3)]
    if th:
        fams += [((2, 3, 3), 3), ((2, 2, 4), 3), ((3, 3, 4), 2)]
    for sizes, nsite in fams:
        for parents in hier.forests(sizes):
            if any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                continue
            for sites in itertools.product(range(nsite), repeat=sizes[2]):
                yield dict(kind='tree', sizes=list(sizes), parents=parents, sites=sites, orders=4 if th and sizes[2] < 4 else 2)
    for nfile in (2, 3) if th else (2,):
        for assign in itertools.product(range(nfile), repeat=3):
            for sites in itertools.product(range(2), repeat=3):
                yield dict(kind='divide', assign=assign, sites=sites, nfile=nfile)
    for size in ((56, 56), (112, 56), (280, 280)):
        for part in range(4):
            yield dict(kind='border', size=list(size), part=part, n=4 if th else 2)
    for sel in range(5):
        yield dict(kind='select', sel=sel)
    yield dict(kind='nothing')
    for seq in itertools.product(range(3), repeat=2):
        yield dict(kind='whole', seq=list(seq))
    for k in (1, 2, 3) if th else (1, 2):
        for seq in itertools.product(range(4), repeat=k):
            yield dict(kind='files', seq=list(seq))
    yield dict(kind='sample')
    yield dict(kind='noclip')


def finding_key(case, err):
    if case['kind'] == 'noclip':
        return 'gridding-without-clipping'


def setup(xb, yb, dx, dy, nadir, t0=T0, t1=None, frame=60):
    g = GLMlutGridder(t0, t1 or t0 + dt.timedelta(seconds=60), **M.gridder_kwargs(xb, yb, dx, dy, frame, dt.datetime(t0.year, t0.month, t0.day), nadir))
    mesh = QuadMeshSubset(*np.meshgrid(g.xedge, g.yedge), n_neighbors=160, regular=True)
    return g, mesh


def judge(g, files, trace, what, **kw):
    want = M.model(files, g.xedge, g.yedge, g.t_edges, **kw)
    got = M.grids_of(g)
    trace.agree(M.compare(got, *want, require, what, spacing=min(np.diff(g.xedge).min(), np.diff(g.yedge).min())))
    trace.step([np.round(got[f], 2) for f in M.FIELDS])
    return want[0]


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def single(fid, x, y, nadir, rev=0):
    """rows of a flash with one group and one event at x, y"""
    p = M.at(x, y, nadir, rev)
    return dict(F=[dict(id=fid, **p)], G=[dict(id=fid + 100, fl=fid, **p)], E=[dict(id=fid + 1000, gr=fid + 100, **p)])


def merge(parts, **kw):
    d = dict(F=[r for p in parts for r in p['F']], G=[r for p in parts for r in p['G']], E=[r for p in parts for r in p['E']])
    d.update(kw)
    return d


def check_place(case, trace):
    dx, dy = case['size'][0] * 1e-6, case['size'][1] * 1e-6
    x0, y0 = REGIONS[case['region']]
    nadir, n = case['nadir'], case['n']
    # isolated flashes, each at another place within its cell
    kx, ky = max(1, int(np.ceil(400e-6 / dx))), max(1, int(np.ceil(400e-6 / dy)))
    parts = []
    for i, j in itertools.product(range(n), range(n)):
        x = x0 + (2 + i * kx + (i + .5) / n) * dx
        y = y0 + (2 + j * ky + (j + .37) / n) * dy
        parts.append(single(1 + i * n + j, x, y, nadir))
    d = merge(parts, nadir=nadir)
    g, mesh = setup((x0 - 4 * kx * dx, x0 + (n + 4) * kx * dx), (y0 - 4 * ky * dy, y0 + (n + 4) * ky * dy), dx, dy, nadir)
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    g.process_flashes(glm, clip_events=mesh, fixed_grid=True, nadir_lon=nadir)
    want = judge(g, [d], trace, 'places')
    total = sum(lcfa.float_energy(r['energy'], {}) * 1e9 for r in lcfa.filled(d)['E'])
    got = float(np.asarray(M.grids_of(g)['total_energy'], 'f8').sum())
    require(abs(got - total) < 1e-4 * total, 'total energy %s, expected %s', got, total)


def small_lut(x0, y0):
    """Corner table with four nodes around a place, offsets unlike those shipped."""
    X, Y = np.meshgrid(np.array([x0 - .01, x0 + .01]) * 1e6, np.array([y0 - .01, y0 + .01]) * 1e6)
    base = np.array([(-70., 95.), (-80., -90.), (75., -85.), (90., 100.)])
    f = os.path.join(core.scratch(), 'small.pickle')
    with open(f, 'wb') as h:
        pickle.dump((X, Y, np.broadcast_to(base, X.shape + (4, 2)).copy()), h)
    return f, base * 1e-6


def with_corners(off, fn, *args, **kw):
    keep = M.corners
    M.corners = lambda x, y: off
    try:
        return fn(*args, **kw)
    finally:
        M.corners = keep


def run_small(files, chunk, trace, what, order=None, xb=None, nadir=-75.0, **kw):
    x0, y0 = REGIONS['conus']
    dx, dy = 112e-6, 84e-6
    lut, off = small_lut(x0, y0)
    g, mesh = setup((x0 - 8 * dx, x0 + 15 * dx), (y0 - 10 * dy, y0 + 9 * dy), dx, dy, nadir)
    for d in files if order is None else [files[i] for i in order]:
        glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
        read_flashes(glm, g.framer, base_date=g.t_ref, clip_events=mesh, fixed_grid=True, nadir_lon=nadir, chunk_size=chunk, corner_pickle=lut, **kw)
    return g, off


def check_tree(case, trace):
    x0, y0 = REGIONS['conus']
    nadir = -75.0
    levels = hier.build(case['sizes'], case['parents'], 'u16')
    F, G, E = levels
    site = lambda k: M.at(x0 + SITES[k][0] * 1e-6, y0 + SITES[k][1] * 1e-6, nadir)
    ctr = lambda i: M.at(x0 + (31 + 180 * i) * 1e-6, y0 + (17 - 130 * i) * 1e-6, nadir)
    d = dict(F=[dict(id=r[0], area=1000 + 700 * ((i * 2) % 3), **ctr(i)) for i, r in enumerate(F)],
             G=[dict(id=r[0], fl=r[1], area=100 + 90 * i, **ctr(i * 2)) for i, r in enumerate(G)],
             E=[dict(id=r[0], gr=r[1], energy=1 << (4 + i), **site(s)) for i, (r, s) in enumerate(zip(E, case['sites']))], nadir=nadir)
    for o in range(case['orders']):
        rows = {k: d[k][::-1] if o & 1 else d[k] for k in 'FGE'}
        if o & 2:
            rows['E'] = rows['E'][1:] + rows['E'][:1]
        dd = dict(d, **rows)
        g, off = run_small([dd], 20000, trace, 'tree')
        with_corners(off, judge, g, [dd], trace, 'tree')
    total = sum(r['energy'] for r in d['E']) * float(lcfa.E_SCALE) * 1e9
    got = float(np.asarray(M.grids_of(g)['total_energy'], 'f8').sum())
    require(abs(got - total) < 1e-4 * total, 'total energy %s, expected %s', got, total)


def check_divide(case, trace):
    x0, y0 = REGIONS['conus']
    nadir = -75.0
    parts = []
    for k, s in enumerate(case['sites']):
        p = single(1 + k * 7, x0 + SITES[s][0] * 1e-6, y0 + SITES[s][1] * 1e-6, nadir)
        # a second event elsewhere in the same group
        q = M.at(x0 + (300 + 250 * k) * 1e-6, y0 - 200e-6, nadir)
        p['E'].append(dict(id=2000 + k, gr=p['G'][0]['id'], **q))
        p['F'][0]['area'] = [3000, 1000, 2000][k]
        parts.append(p)
    whole = merge(parts, nadir=nadir)
    g, off = run_small([whole], 20000, trace, 'one file')
    ref = {f: np.array(v) for f, v in M.grids_of(g).items()}
    want = with_corners(off, judge, g, [whole], trace, 'one file')
    files = []
    for n in range(case['nfile']):
        mine = [p for p, a in zip(parts, case['assign']) if a == n]
        if mine:
            files.append(merge(mine, nadir=nadir))
    for order in itertools.permutations(range(len(files))):
        for chunk in (1, 2, 20000):
            g, off = run_small(files, chunk, trace, 'divided', order=order)
            with_corners(off, judge, g, [files[i] for i in order], trace, 'divided %s chunk %d' % (order, chunk))
            for f in M.FIELDS:
                require(np.allclose(M.grids_of(g)[f], ref[f], rtol=1e-5, atol=1e-6 * max(1.0, float(ref[f].max()))), '%s depends on files %s or chunk size %d', f, order, chunk)


def check_border(case, trace):
    dx, dy = case['size'][0] * 1e-6, case['size'][1] * 1e-6
    x0, y0 = REGIONS['sw']
    nadir = -75.0
    nx, ny = max(8, int(6 * 900e-6 / dx)), max(8, int(6 * 900e-6 / dy))
    xb, yb = (x0, x0 + nx * dx), (y0, y0 + ny * dy)
    n = case['n']
    reach = 130e-6
    pts = []
    # positions along one side, from well outside to well inside, spaced so that footprints stay apart
    steps = [(-1.9 + k * 3.8 / (6 * n)) * reach for k in range(6 * n + 1)]
    for k, s in enumerate(steps):
        along = (k + .5) / len(steps)
        if case['part'] == 0:
            pts += [(xb[0] + s, yb[0] + along * (yb[1] - yb[0])), (xb[1] + s, yb[0] + along * (yb[1] - yb[0]))]
        elif case['part'] == 1:
            pts += [(xb[0] + along * (xb[1] - xb[0]), yb[0] + s), (xb[0] + along * (xb[1] - xb[0]), yb[1] + s)]
    if case['part'] >= 2:
        for cx, cy in itertools.product(xb, yb):
            for sx, sy in itertools.product(steps[::3 if case['part'] == 2 else 2], repeat=2):
                pts.append((cx + sx, cy + sy))
    d = merge([single(1 + k, x, y, nadir) for k, (x, y) in enumerate(pts)], nadir=nadir)
    g, mesh = setup(xb, yb, dx, dy, nadir)
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    g.process_flashes(glm, clip_events=mesh, fixed_grid=True, nadir_lon=nadir)
    judge(g, [d], trace, 'border')


def check_select(case, trace):
    x0, y0 = REGIONS['conus']
    nadir = -75.0
    # one, two and three groups / events
    d = lcfa.tree([[1], [1, 1], [1, 2, 1], [3]], nadir=nadir)
    for k, r in enumerate(d['E']):
        r.update(M.at(x0 + (k % 4) * 250e-6, y0 + (k // 4) * 260e-6, nadir))
    ctr = {1: (10, 20), 2: (400, 30), 3: (410, 300), 4: (15, 310)}
    for r in d['F']:
        r.update(M.at(x0 + ctr[r['id']][0] * 1e-6, y0 + ctr[r['id']][1] * 1e-6, nadir))
    for r in d['G']:
        r.update(M.at(x0 + ctr[r['fl']][0] * 1e-6, y0 + ctr[r['fl']][1] * 1e-6, nadir))
    kw, keep = [
        (dict(min_groups_per_flash=2), {2, 3}),
        (dict(min_points_per_flash=3), {3, 4}),
        (dict(min_groups_per_flash=2, min_points_per_flash=3), {3}),
        (dict(x_bnd=(x0 - .001, x0 + 200e-6), y_bnd=(y0 - .001, y0 + .001)), {1, 4}),
        (dict(x_bnd=(x0 - .001, x0 + .001), y_bnd=(y0 + 100e-6, y0 + .001), min_points_per_flash=4), {3}),
    ][case['sel']]
    dx = 112e-6
    g, mesh = setup((x0 - 8 * dx, x0 + 15 * dx), (y0 - 10 * dx, y0 + 9 * dx), dx, dx, nadir)
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    g.process_flashes(glm, clip_events=mesh, fixed_grid=True, nadir_lon=nadir, **kw)
    judge(g, [d], trace, 'selection %d' % case['sel'], keep=[keep])


def check_nothing(case, trace):
    """files whose lightning is all off the grid, before and after one that is on it"""
    x0, y0 = REGIONS['conus']
    nadir = -75.0
    off = merge([single(1, x0 + .03, y0 - .02, nadir)], nadir=nadir)
    on = merge([single(2, x0 + 20e-6, y0 + 10e-6, nadir)], nadir=nadir)
    for seq in itertools.product((off, on), repeat=3):
        g, lo = run_small(list(seq), 20000, trace, 'off grid')
        with_corners(lo, judge, g, list(seq), trace, 'off grid')


def check_whole(case, trace):
    """events well inside one wide cell, in which nothing needs cutting: alone in the file, two in a cell, two cells"""
    x0, y0 = REGIONS['conus']
    nadir, dx = -75.0, 900e-6
    files = []
    for n, what in enumerate(case['seq']):
        at = [[(450, 430)], [(440, 450), (490, 420)], [(1350, 450), (440, -450)]][what]
        files.append(merge([single(1 + k + 10 * n, x0 + x * 1e-6, y0 + y * 1e-6, nadir) for k, (x, y) in enumerate(at)], nadir=nadir))
    for m in (1, 2):
        for chunk in (1, 20000):
            g, mesh = setup((x0 - 3 * dx, x0 + 4 * dx), (y0 - 3 * dx, y0 + 4 * dx), dx, dx, nadir)
            for d in files[:m]:
                read_flashes(GLMDataset(lcfa.decoded(d), ellipse_rev=0), g.framer, base_date=g.t_ref, clip_events=mesh, fixed_grid=True, nadir_lon=nadir, chunk_size=chunk)
            judge(g, files[:m], trace, 'whole cells')


def check_files(case, trace):
    """sequences of files with one event, several, none, and none on the grid, through the images they give"""
    import xarray as xr
    x0, y0 = REGIONS['conus']
    nadir, dx, nx, ny = -75.0, 112e-6, 21, 17
    files = []
    for n, what in enumerate(case['seq']):
        start = (T0 + dt.timedelta(seconds=20 * n)).isoformat()
        one = lambda k, x, y: single(1 + k + 10 * n, x0 + x * 1e-6, y0 + y * 1e-6, nadir)
        parts = [[one(0, 20, 10)], [one(0, 60, 30), one(1, 500, -200)], [], [one(0, 30000, -20000)]][what]
        files.append(merge(parts, nadir=nadir, start=start))
    paths = [lcfa.write(d, core.scratch()) for d in files]
    out = os.path.join(core.scratch(), 'out')
    xb, yb = (x0 - 8 * dx, x0 + (nx - 8) * dx), (y0 - 8 * dx, y0 + (ny - 8) * dx)
    M.grid_files(paths, T0, T0 + dt.timedelta(seconds=60), xb, yb, dx, dx, 60, nadir, os.path.join(out, '{dataset_name}'))
    made = glob.glob(os.path.join(out, '*.nc'))
    require(len(made) == 1, '%d images', len(made))
    xe, ye = xb[0] + dx * np.arange(nx + 1), yb[0] + dx * np.arange(ny + 1)
    want, sliver, amb = M.model(files, xe, ye, [T0, T0 + dt.timedelta(seconds=60)])
    with xr.open_dataset(made[0]) as d:
        got = {f: np.nan_to_num(np.asarray(d[v].values, 'f8'))[::-1].T[:, :, None] for f, v in zip(M.FIELDS, M.NAMES)}
    for lvl in ('flash', 'group'):
        got['total_%s_area' % lvl] = got['total_%s_area' % lvl] * got['%s_extent_density' % lvl]
    trace.agree(M.compare(got, want, sliver, amb, require, 'files %s' % case['seq']))
    trace.step(case['seq'], [np.round(got[f], 2) for f in M.FIELDS])


def check_sample(case, trace):
    """the published product made from the sample files, which also validates the model of the companion package"""
    import xarray as xr
    data = os.path.join(core.REPO, 'glmtools', 'test', 'data')
    fs = sorted(glob.glob(os.path.join(data, 'OR_GLM-L2-LCFA_G16_s201818304*.nc')))
    require(len(fs) == 3, 'sample files')
    ref = xr.open_dataset(glob.glob(os.path.join(data, 'conus', '2018', 'Jul', '02', 'OR_GLM-L2-GLMC-M3_G16_s20181830433000_*.nc'))[0])
    xc, yc = -0.03136, 0.08624
    out = os.path.join(core.scratch(), 'out')
    M.grid_files(fs, T0, T0 + dt.timedelta(seconds=60), (xc - .07, xc + .07), (yc - .042, yc + .042), 56e-6, 56e-6, 60, -75.0, os.path.join(out, '{dataset_name}'))
    made = glob.glob(os.path.join(out, '*.nc'))
    require(len(made) == 1, '%d images from the sample', len(made))
    got = xr.open_dataset(made[0])
    require(np.allclose(got.x, ref.x, atol=1e-6) and np.allclose(got.y, ref.y, atol=1e-6), 'coordinates of the sample product')
    tol = {'flash_extent_density': 0.07, 'group_extent_density': 0.26, 'flash_centroid_density': 0, 'group_centroid_density': 0, 'total_energy': 2e-6}
    for v, t in tol.items():
        a, b = np.nan_to_num(got[v].values.astype('f8')), np.nan_to_num(ref[v].values.astype('f8'))
        # the published product lacks the outermost part of the widest events
        require((np.abs(a - b) <= t + .01 * b * (t > 0)).all(), 'sample product: %s differs by %s', v, float(np.abs(a - b).max()))
        trace.step(v, float(a.sum()))
        trace.agree(a.size)
    got.close()
    ref.close()


def check_noclip(case, trace):
    nadir = -75.0
    x0, y0 = REGIONS['conus']
    k = M.gridder_kwargs((x0, x0 + .001), (y0, y0 + .001), 1e-4, 1e-4, 60, T0, nadir)
    GLMGridder(T0, T0 + dt.timedelta(seconds=60), **k)
    trace.step('constructed')
