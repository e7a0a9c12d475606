"""C16: series of images."""
import datetime as dt
import itertools
import os

import numpy as np
import xarray as xr

from mc import core, gridding as M
from mc.core import require
from mc.checks import c13, c15
from glmtools.grid.make_grids import GLMlutGridder
from glmtools.io.imagery import aggregate, gen_file_times, open_glm_time_series, write_goes_imagery

BOUNDS = {
    'quick': 'every order of every choice of up to 3 out of 6 image files (consecutive, with a gap, overlapping, other length, across midnight and year end, fractions of a second), '
             'scaled and unscaled, one file then replaced by another image; each series aggregated over 1, 2 and 5 minutes; '
             '12 files across midnight in every rotation and backwards',
    'thorough': 'as quick with up to 4 out of 8 files, and 130 files in four rotations and backwards',
}
ASSUMPTIONS = ['xarray opens several files as its combine_nested does (dask is not installed)', 'images of one series share their grid']
# start, seconds
FILES = [('2019-12-31T23:58:00', 60), ('2019-12-31T23:59:00', 60), ('2020-01-01T00:00:00', 60), ('2020-01-01T00:03:00', 60), ('2019-12-31T23:58:30', 60), ('2020-01-01T00:00:20.500000', .5),
         ('2019-12-31T23:57:00', 600), ('2020-02-29T12:00:00', 60)]


def cases(tier):
    th = tier == 'thorough'
    for scaled in (True, False):
        for k in range(1, 5 if th else 4):
            for pick in itertools.combinations(range(8 if th else 6), k):
                yield dict(kind='series', pick=list(pick), scaled=scaled)
        for n in (12, 130) if th else (12,):
            yield dict(kind='long', n=n, scaled=scaled)


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def open_mfdataset(paths, chunks=None, concat_dim=None, combine='by_coords', **kw):
    """what xarray does when dask is there, without dask"""
    parts = []
    for p in paths:
        with xr.open_dataset(p) as d:
            parts.append(d.load())
    if combine == 'nested':
        return xr.combine_nested(parts, concat_dim, combine_attrs='override', **{k: kw[k] for k in ('compat', 'data_vars', 'coords', 'join') if k in kw})
    out = xr.combine_by_coords(parts, combine_attrs='override')
    return out


def image(n, scaled):
    start, sec = FILES[n]
    start = dt.datetime.fromisoformat(start)
    d = 112e-6
    x0, y0 = -0.151844 + 56e-6 * 2000 - d / 2, 0.151844 - 56e-6 * 2300 - d / 2
    g = GLMlutGridder(start, start + dt.timedelta(seconds=sec), **M.gridder_kwargs((x0, x0 + 4 * d), (y0, y0 + 3 * d), d, d, sec, dt.datetime(start.year, start.month, start.day), -75.0))
    g.first_file_attrs = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='FM1')
    for k, (name, grid) in enumerate(zip(g.field_names, g.outgrids)):
        # lightning in cells particular to the file, and in one shared by all
        for i, j in ((n % 4, n % 3), (3, 2)):
            grid[i, j, 0] = (10 + 3 * n + k) * c13.STEP[name] * (4 if 'average' in name else 1)
    f, = write_goes_imagery(g, outpath=os.path.join(core.scratch(), '%s_%d.nc' % ('zyxwvuts'[n], n)), scale_and_offset=scaled)
    with xr.open_dataset(f) as d:
        return f, start, start + dt.timedelta(seconds=sec), d.load()


def check_long(case, trace):
    n = case['n']
    plain = image(0, case['scaled'])
    start = dt.datetime(2019, 12, 31, 23, 54)
    images = []
    for k in range(n):
        d = plain[3].copy(deep=True)
        for i, v in enumerate(M.NAMES):
            d[v].values[k % 3, (k // 3) % 4] = (20 + k + i) * c13.STEP[v]
            d[v].encoding = dict(plain[3][v].encoding)
        a = start + dt.timedelta(minutes=k)
        b = a + dt.timedelta(minutes=1)
        d.attrs.update(time_coverage_start=a.isoformat() + 'Z', time_coverage_end=b.isoformat() + 'Z')
        f = os.path.join(core.scratch(), 'm%d.nc' % k)
        d.to_netcdf(f)
        with xr.open_dataset(f) as got:
            images.append((f, a, b, got.load()))
    keep = xr.open_mfdataset
    xr.open_mfdataset = open_mfdataset
    try:
        turns = range(n) if n < 20 else (0, 1, n // 2, n - 1)
        for these in [images[k:] + images[:k] for k in turns] + [images[::-1]]:
            ds = judge(these, trace)
            trace.step(str(these[0][1]), n)
    finally:
        xr.open_mfdataset = keep


def check_series(case, trace):
    keep = xr.open_mfdataset
    xr.open_mfdataset = open_mfdataset
    try:
        images = [image(n, case['scaled']) for n in case['pick']]
        for order in itertools.permutations(range(len(images))):
            these = [images[k] for k in order]
            ds = judge(these, trace)
            trace.step(order, [np.nan_to_num(ds[v].values) for v in M.NAMES])
            if order == tuple(sorted(order)) or order == tuple(sorted(order, reverse=True)):
                chain(ds, these, trace)
        # the first file made anew with another image
        f, other = images[0][0], image((case['pick'][-1] + 1) % len(FILES), case['scaled'])
        os.replace(other[0], f)
        ds = open_glm_time_series([f])
        require(list(ds['time'].values.astype('M8[us]')) == [np.datetime64(other[1])], 'times %s of a file made anew', ds['time'].values)
        require(np.datetime64(ds.attrs['time_coverage_end'].rstrip('Z')) == np.datetime64(other[2]), 'coverage of a file made anew')
        for v in M.NAMES:
            require(np.array_equal(ds[v].isel(time=0).transpose('y', 'x').values, other[3][v].transpose('y', 'x').values, equal_nan=True), '%s of a file made anew', v)
            trace.agree()
        trace.step('anew', str(other[1]))
    finally:
        xr.open_mfdataset = keep


def judge(these, trace):
    names = [i[0] for i in these]
    for attr, pos in (('time_coverage_start', 1), ('time_coverage_end', 2)):
        got = [t.to_pydatetime() for t in gen_file_times(names, time_attr=attr)]
        require(got == [i[pos] for i in these], '%s of files %s', attr, got)
    ds = open_glm_time_series(names)
    times = [np.datetime64(i[1]) for i in these]
    require(ds['time'].dims == ('time',) and list(ds['time'].values.astype('M8[us]')) == times, 'times %s, expected %s', ds['time'].values, times)
    require('time' in ds.coords and 'time' in ds.indexes, 'time is not an index')
    require(np.datetime64(ds.attrs['time_coverage_start'].rstrip('Z')) == min(times), 'coverage starts %s', ds.attrs['time_coverage_start'])
    require(np.datetime64(ds.attrs['time_coverage_end'].rstrip('Z')) == max(np.datetime64(i[2]) for i in these), 'coverage ends %s', ds.attrs['time_coverage_end'])
    for k, (f, a, b, d) in enumerate(these):
        at = ds.isel(time=k)
        by = ds.sel(time=np.datetime64(a))
        for v in M.NAMES + ('DQF',):
            require(np.array_equal(at[v].transpose('y', 'x').values, d[v].transpose('y', 'x').values, equal_nan=True), '%s at time %s is not that of the file', v, a)
            require(np.array_equal(by[v].transpose('y', 'x').values, d[v].transpose('y', 'x').values, equal_nan=True), '%s selected by time %s is not that of the file', v, a)
            trace.agree()
        require(np.array_equal(ds.x.values, d.x.values) and np.array_equal(ds.y.values, d.y.values), 'coordinates')
        require(float(at['nominal_satellite_subpoint_lon']) == float(d['nominal_satellite_subpoint_lon']), 'subpoint')
    for a in ('longitude_of_projection_origin', 'perspective_point_height'):
        require(ds['goes_imager_projection'].attrs[a] == these[0][3]['goes_imager_projection'].attrs[a], 'projection attributes')
    return ds


def chain(ds, these, trace):
    """aggregating the opened series"""
    start = min(i[1] for i in these)
    for minutes in (1, 2, 5):
        step = dt.timedelta(minutes=minutes)
        if (max(i[1] for i in these) - start) / step > 200:
            continue
        agg = aggregate(ds, minutes)
        for b, iv in enumerate(agg.time_bins.values):
            lo, hi = iv.left.to_pydatetime(), iv.right.to_pydatetime()
            require((lo - start) % step == dt.timedelta(0) and hi - lo == step, 'interval %s to %s', lo, hi)
            parts = [i[3] for i in these if lo <= i[1] < hi]
            for v in c15.ALL:
                got = np.asarray(agg[v].isel(time_bins=b).transpose('y', 'x').values, 'f8')
                cells = [[{n: float(p[n].values[y, x]) for n in c15.ALL} for p in parts] for y in range(3) for x in range(4)]
                want = np.array([c15.combine(v, [c for c in cs if not np.isnan(c['flash_extent_density'])]) for cs in cells]).reshape(3, 4)
                require((np.nan_to_num(got[np.isnan(want)]) == 0).all() and (np.abs(got - want)[~np.isnan(want)] <= 1e-5 * want[~np.isnan(want)]).all(), 'aggregated %s over %s to %s', v, lo, hi)
                trace.agree()
        held = sum(1 for i in these for iv in agg.time_bins.values if iv.left.to_pydatetime() <= i[1] < iv.right.to_pydatetime())
        require(held == len(these), '%d of %d images are in an interval', held, len(these))
        trace.step(minutes, len(these))
