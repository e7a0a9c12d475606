"""C13: images read back as gridded."""
import datetime as dt
import glob
import itertools
import os

import numpy as np
import xarray as xr

from mc import core, gridding as M
from mc.core import require
from glmtools.grid.make_grids import GLMlutGridder
from glmtools.io.imagery import glm_scaling, write_goes_imagery, glm_image_to_var, get_goes_imager_all_valid_dqf, get_goes_imager_fixedgrid_coords

BOUNDS = {
    'quick': 'every pair of count and total out of 12 values (none, below, at and between encoding steps, large, near the largest code) in one grid, 3 grid shapes that are not square, '
             '1 and 2 times, 3 paddings, scaled and unscaled, 4 cell spacings, in histories of write, write again, add lightning and write; all 65,535 codes of each field, and images whose largest value is within a step of each power of two',
    'thorough': 'as quick with all combinations of shape, times, padding, scaling and spacing, and 20 values',
}
ASSUMPTIONS = ['cell spacing 56 microradians or more, at least two columns']
T0 = dt.datetime(2018, 7, 2, 4, 33)
# nominal encoding steps of the product, restated independently of the code
STEP = {'flash_extent_density': .0625, 'flash_centroid_density': 1., 'average_flash_area': 10., 'minimum_flash_area': 10.,
        'group_extent_density': .25, 'group_centroid_density': 1., 'average_group_area': 1., 'total_energy': 1.52597e-6}
MULT = [0, 1e-4, .3, .5, .9, 1, 1.4, 1.6, 2.5001, 37.2, 4000.4, 65534]
MULT_TH = MULT + [.49, .51, 1.49, 32766.6, 32767.4, 32768.3, 65000.4, 12345.6]
SHAPES = {'wide': (12, 13), 'tall': (14, 24), 'small': (3, 2)}
PADS = {'none': None, 'both': (slice(2, -2), slice(1, -1)), 'x': (slice(3, -3), slice(None, None))}


def cases(tier):
    th = tier == 'thorough'
    dims = [list(SHAPES), [1, 2], list(PADS), [True, False], [56, 112, 280, 224]]
    base = ['wide', 1, 'none', True, 56]
    seen = set()
    for combo in itertools.product(*dims):
        dev = sum(a != b for a, b in zip(combo, base))
        if th or dev <= 2:
            if combo[0] == 'small' and combo[2] != 'none':
                continue
            yield dict(kind='write', shape=combo[0], nt=combo[1], pad=combo[2], scaled=combo[3], dx=combo[4], th=th)
    for sh in SHAPES:
        for scaled in (True, False):
            yield dict(kind='orient', shape=sh, scaled=scaled)
    for name in STEP:
        yield dict(kind='codes', name=name, stride=1)
        yield dict(kind='tops', name=name)
    yield dict(kind='coords')


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def gridder(shape, nt, dx, dy=None):
    dx *= 1e-6
    # centres on the nominal grid of the product
    x0, y0 = -0.151844 + 56e-6 * 2000 - dx / 2, 0.151844 - 56e-6 * 2300 - dx / 2
    g = GLMlutGridder(T0, T0 + dt.timedelta(seconds=60 * nt), **M.gridder_kwargs((x0, x0 + shape[0] * dx), (y0, y0 + shape[1] * dx), dx, dx, 60, dt.datetime(2018, 7, 2), -75.0))
    g.first_file_attrs = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='FM1')
    return g


def fill(g, mult, turn=0):
    """every pair of (count, total) multipliers over the cells of each frame, other fields along"""
    for name, grid in zip(g.field_names, g.outgrids):
        n = grid.shape[0] * grid.shape[1]
        for t in range(grid.shape[2]):
            k = np.arange(n) + 5 * t + turn
            first, second = np.array(mult)[k % len(mult)], np.array(mult)[(k // len(mult)) % len(mult)]
            if name.startswith('average'):
                # total area whose mean is a multiple of the step
                cname = 'flash_extent_density' if 'flash' in name else 'group_extent_density'
                count = first * STEP[cname]
                v = second * STEP[name] * np.where(count > 0, count, 1)
                v = np.where(count > 0, v, 0)
            elif name.endswith('extent_density'):
                v = first * STEP[name]
            elif name.endswith('centroid_density'):
                v = np.round(first)
            else:
                v = second * STEP[name]
            grid[:, :, t] = v.reshape(grid.shape[:2])


def expected(g, pad):
    """what each image holds, computed from the grids as they are now: field -> array (nx, ny, nt) with 0 for none"""
    xs, ys = pad or (slice(None), slice(None))
    grids = {n: np.array(a[xs, ys], 'f8') for n, a in zip(g.field_names, g.outgrids)}
    out = dict(grids)
    for avg, cnt in (('average_flash_area', 'flash_extent_density'), ('average_group_area', 'group_extent_density')):
        c = grids[cnt]
        with np.errstate(all='ignore'):
            out[avg] = np.where(c > 0, grids[avg] / np.where(c > 0, c, 1), 0)
    return out


def judge(files, want, g, pad, scaled, trace, what):
    xs, ys = pad or (slice(None), slice(None))
    xc, yc = ((g.xedge[1:] + g.xedge[:-1]) / 2)[xs], ((g.yedge[1:] + g.yedge[:-1]) / 2)[ys]
    require(len(files) == len(g.t_edges) - 1, '%s: %d files', what, len(files))
    for t, f in enumerate(files):
        with xr.open_dataset(f) as d:
            require(d.x.shape == xc.shape and d.y.shape == yc.shape, '%s: image of %s x %s cells', what, d.x.size, d.y.size)
            require(np.abs(d.x.values - xc).max() < 2e-7, '%s: x coordinates', what)
            require(np.abs(d.y.values - yc[::-1]).max() < 2e-7, '%s: y coordinates', what)
            for name in STEP:
                got = np.asarray(d[name].transpose('y', 'x').values, 'f8')[::-1].T
                w = want[name][:, :, t]
                require(got.shape == w.shape, '%s: shape of %s', what, name)
                empty = w == 0
                require((np.isnan(got) | (got == 0))[empty].all(), '%s: %s has values where there is no lightning', what, name)
                require(np.isnan(got[empty]).all(), '%s: %s is not missing where there is no lightning', what, name)
                require(not np.isnan(got[~empty]).any(), '%s: %s is missing where there is lightning', what, name)
                if scaled:
                    w2 = np.where(w <= STEP[name], STEP[name], w)
                    tol = STEP[name] * .5001 + 1e-6 * w2
                else:
                    w2, tol = w, 2e-6 * w
                bad = (np.abs(got - w2) > tol) & ~empty
                if bad.any():
                    k = tuple(np.argwhere(bad)[0])
                    require(False, '%s: %s is %s in a cell where %s was gridded', what, name, got[k], w[k])
                trace.agree(got.size)
                trace.step(name, np.round(got / STEP[name], 1))
            require(d['DQF'].transpose('y', 'x').shape == (len(yc), len(xc)) and (np.nan_to_num(d['DQF'].values) == 0).all(), '%s: quality flags', what)
            flags = list(np.atleast_1d(d['DQF'].attrs['flag_values']))
            names = d['DQF'].attrs['flag_meanings'].replace(',', ' ').split()
            require(dict(zip(flags, names)) == {0: 'valid', 1: 'invalid'} and len(flags) == len(names), '%s: meaning of the quality flags %s %s', what, flags, names)


def check_write(case, trace):
    mult = MULT_TH if case['th'] else MULT
    pad = PADS[case['pad']]
    g = gridder(SHAPES[case['shape']], case['nt'], case['dx'])
    fill(g, mult)
    for step in ('first', 'again', 'after more'):
        if step == 'after more':
            fill(g, mult, turn=17)
        want = expected(g, pad)
        before = [np.array(a) for a in g.outgrids]
        out = os.path.join(core.scratch(), step.replace(' ', '_'))
        if case['shape'] == 'tall':
            # as the gridder itself does it
            kw = dict(pad=pad, scale_and_offset=case['scaled'])
            files = g.write_grids(outpath=os.path.join(out, '{start_time:%H%M}.nc'), output_kwargs=kw)
        else:
            # whole grids of scaled integers unless asked otherwise
            kw = {} if pad is None else dict(pad=pad)
            if not case['scaled'] or step != 'first':
                kw['scale_and_offset'] = case['scaled']
            files = write_goes_imagery(g, outpath=os.path.join(out, '{start_time:%H%M}.nc'), **kw)
        for a, b, name in zip(before, g.outgrids, g.field_names):
            require(np.array_equal(a, b), '%s: writing changed the gridded %s', step, name)
        require(sorted(files) == sorted(glob.glob(os.path.join(out, '*.nc'))), '%s: files named are not those written', step)
        judge(sorted(files), want, g, pad, case['scaled'], trace, step)


def check_orient(case, trace):
    g = gridder(SHAPES[case['shape']], 2, 56)
    for t in range(2):
        for k, (name, grid) in enumerate(zip(g.field_names, g.outgrids)):
            i, j = np.meshgrid(np.arange(grid.shape[0]), np.arange(grid.shape[1]), indexing='ij')
            u = 2 + i * grid.shape[1] + j + 1000 * t + 13 * k
            grid[:, :, t] = u * STEP[name]
        for a, c in (('average_flash_area', 'flash_extent_density'), ('average_group_area', 'group_extent_density')):
            gr = dict(zip(g.field_names, g.outgrids))
            gr[a][:, :, t] *= gr[c][:, :, t]
    want = expected(g, None)
    files = write_goes_imagery(g, outpath=os.path.join(core.scratch(), '{start_time:%H%M}.nc'), scale_and_offset=case['scaled'])
    judge(sorted(files), want, g, None, case['scaled'], trace, 'orientation')


def check_codes(case, trace):
    """every code of one field through a file"""
    name = case['name']
    codes = np.arange(1, 65535, case['stride'])
    n = int(np.ceil(len(codes) / 250.))
    data = np.zeros((n, 250))
    data.ravel()[:len(codes)] = codes * STEP[name]
    for frac in (0.0, .4, -.4):
        a = np.where(data > 0, data + frac * STEP[name], 0).astype('f8')
        v = glm_image_to_var(a.copy(), name, 'long', '1', ('y', 'x'), **glm_scaling[name])
        f = os.path.join(core.scratch(), 'c%s.nc' % frac)
        v.to_dataset().to_netcdf(f)
        with xr.open_dataset(f) as d:
            got = np.asarray(d[name].values, 'f8')
        w = np.where((a > 0) & (a < STEP[name]), STEP[name], a)
        require(np.isnan(got[a == 0]).all(), 'empty cells are not missing')
        require((np.abs(got - w)[a > 0] <= STEP[name] * .501).all(), '%s: a code does not read back', name)
        trace.step(name, frac, got[a > 0][::97])
        trace.agree(len(codes))


def check_tops(case, trace):
    """images whose largest value is at a boundary of the encoding, on its own and with a small one beside it"""
    name = case['name']
    ds, want = {}, {}
    tops = sorted({c + d for c in (1 << k for k in range(16)) for d in (-1, -.6, -.3, 0, .3, .6, 1) if 0 < c + d} | {65534.0, 65533.7, 65000.0}) + [0.0]
    for i, c in enumerate(tops):
        for j, row in enumerate(([c], [0, c, 1], [c, c, 0], [1, c, .2])):
            v = np.array([row], 'f8') * STEP[name]
            key = '%s_%d_%d' % (name, i, j)
            ds[key] = glm_image_to_var(v.copy(), key, 'long', '1', ('y', 'x%d' % len(row)), **glm_scaling[name])
            want[key] = v
    f = os.path.join(core.scratch(), 'tops.nc')
    xr.Dataset(ds).to_netcdf(f)
    with xr.open_dataset(f) as d:
        for key, a in want.items():
            got = np.asarray(d[key].values, 'f8')
            w = np.where((a > 0) & (a < STEP[name]), STEP[name], a)
            require(np.isnan(got[a == 0]).all(), 'empty cells are not missing in %s', (a / STEP[name]).tolist())
            require((np.abs(got - w)[a > 0] <= STEP[name] * .501).all(), '%s steps of %s read back as %s', (a / STEP[name]).tolist(), name, (got / STEP[name]).tolist())
            trace.step(key, got)
            trace.agree(a.size)


def check_coords(case, trace):
    for res in (56, 112, 280):
        for n in (2, 3, 50):
            for i0, j0 in itertools.product((0, 1000, 5000), (0, 2000, 5300)):
                x = -0.151844 + 56e-6 * i0 + res * 1e-6 * np.arange(n)
                y = 0.151844 - 56e-6 * j0 - res * 1e-6 * np.arange(n + 1)
                xv, yv = get_goes_imager_fixedgrid_coords(x, y)
                require(np.array_equal(xv.values, x) and np.array_equal(yv.values, y), 'coordinates changed')
                ds = xr.Dataset(coords={'x': xv, 'y': yv})
                ds.x.encoding.update(xv.encoding)
                ds.y.encoding.update(yv.encoding)
                f = os.path.join(core.scratch(), 'coord.nc')
                ds.to_netcdf(f)
                with xr.open_dataset(f) as d:
                    require(np.abs(d.x.values - x).max() < 2e-7 and np.abs(d.y.values - y).max() < 2e-7, 'coordinates read back wrongly')
                trace.step(res, n, i0, j0)
                trace.agree(2 * n + 1)
