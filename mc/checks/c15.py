"""C15: aggregation in time."""
import datetime as dt
import itertools

import numpy as np
import xarray as xr

from mc import core
from mc.core import require
from glmtools.io.imagery import aggregate

BOUNDS = {
    'quick': 'every sequence of contents (none or either of two kinds of lightning) over up to 5 images, one cell each; every set of up to 5 image times out of 6 minutes, '
             'intervals of 1, 2, 3 and 5 minutes, ranges left out and 5 stated ranges, intervals of hours and a day over up to a month, 3 dates, image order forward, backward and interleaved; 6 sets of times in which images share a time',
    'thorough': 'as quick with sets of up to 6 of 8 minutes, 3 kinds of lightning, intervals of 1 to 7 minutes and all dates and orders for each',
}
ASSUMPTIONS = ['stated ranges are a whole number of intervals', 'images have NaN where there is no lightning, as documented']
T0 = [dt.datetime(2018, 7, 2, 4, 33), dt.datetime(2019, 12, 31, 23, 57), dt.datetime(2020, 2, 28, 23, 58)]
SUM = ['flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density', 'group_centroid_density']
ALL = SUM + ['average_flash_area', 'average_group_area', 'minimum_flash_area']
UNITS = dict(flash_extent_density='Count per nominal 3136 microradian^2 pixel per 1.0 min', flash_centroid_density='Count per 1.0 min', total_energy='nJ', group_extent_density='Count per pixel per 1.0 min',
             group_centroid_density='Groups per 1.0 min', average_flash_area='km^2 per flash', average_group_area='km^2 per group', minimum_flash_area='km^2')
# kinds of lightning: a value for each field, distinct enough to tell what was combined
KINDS = [None,
         dict(flash_extent_density=2.5, flash_centroid_density=1., total_energy=3e-4, group_extent_density=7., group_centroid_density=4., average_flash_area=310., average_group_area=95., minimum_flash_area=150.),
         dict(flash_extent_density=.5, flash_centroid_density=np.nan, total_energy=9e-5, group_extent_density=1.25, group_centroid_density=np.nan, average_flash_area=820., average_group_area=130., minimum_flash_area=70.),
         dict(flash_extent_density=11., flash_centroid_density=6., total_energy=2e-3, group_extent_density=40., group_centroid_density=17., average_flash_area=64., average_group_area=61., minimum_flash_area=64.)]


def cases(tier):
    th = tier == 'thorough'
    span, most = (8, 6) if th else (6, 5)
    n = 0
    for k in range(1, most + 1):
        for times in itertools.combinations(range(span), k):
            for minutes in range(1, 8) if th else (1, 2, 3, 5):
                n += 1
                for date in range(3) if th else [n % 3]:
                    yield dict(kind='bins', times=list(times), minutes=minutes, date=date, order=n % 3, kinds=4 if th and k < 6 else 3, unit=60)
    for times in itertools.combinations(range(6), 3):
        for minutes in (1, 2):
            for r in range(5):
                yield dict(kind='bins', times=list(times), minutes=minutes, date=r % 3, order=r % 3, kinds=3, unit=60, range=r)
    # images of 20 s
    for times in ([0, 1, 2, 3, 4, 5], [2, 3, 5], [0, 3, 6], [1, 2, 7]):
        for minutes in (1, 2):
            yield dict(kind='bins', times=times, minutes=minutes, date=0, order=0, kinds=3, unit=20)
    # images of the same time
    for n, times in enumerate(([0, 0], [0, 0, 1], [0, 1, 1], [1, 1, 1, 3], [0, 2, 2, 3], [0, 0, 3, 3])):
        for minutes in (1, 2, 3):
            for o in range(3):
                yield dict(kind='bins', times=times, minutes=minutes, date=n % 3, order=o, kinds=3, unit=60)
    # days
    for unit, times in ((18000, [0, 1, 5]), (18000, [0, 3, 4, 9]), (86400, [0, 1, 3]), (86400, [0, 31])):
        for minutes in (300, 720, 1440):
            for r in (None, 0, 2, 4):
                yield dict(kind='bins', times=times, minutes=minutes, date=1, order=0, kinds=3, unit=unit, range=r)
    for drop in (['total_energy'], ['minimum_flash_area'], ['flash_centroid_density', 'group_centroid_density'], ['goes_imager_projection']):
        yield dict(kind='bins', times=[0, 1, 3], minutes=2, date=0, order=0, kinds=3, unit=60, drop=drop)


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def ranges(case, start, dtm):
    """stated ranges: a multiple of the interval, beginning before, at and after the first image"""
    r = case.get('range')
    if r is None:
        return None
    off, n = [(0, 3), (-2, 4), (1, 2), (2, 1), (-1, 8)][r]
    a = start + dt.timedelta(minutes=off)
    return (a, a + n * dtm)


def check_bins(case, trace):
    nk, unit, minutes = case['kinds'], case['unit'], case['minutes']
    t0 = T0[case['date']]
    order = {0: lambda s: s, 1: lambda s: s[::-1], 2: lambda s: s[1::2] + s[::2]}[case['order']]
    times = order([t0 + dt.timedelta(seconds=unit * k) for k in case['times']])
    contents = list(itertools.product(range(nk), repeat=len(times)))       # one cell per sequence of contents
    ncell = len(contents)
    nx = 9 if ncell % 9 == 0 else 3 if ncell % 3 == 0 else 1
    if nk == 4:
        nx = 4
    data = {}
    for f in ALL:
        v = np.array([[np.nan if k == 0 else KINDS[k][f] for k in c] for c in contents], 'f4' if case['date'] else 'f8')
        data[f] = (('time', 'y', 'x'), np.ascontiguousarray(v.T).reshape(len(times), ncell // nx, nx))
        data[f] += (dict(units=UNITS[f], long_name=f.replace('_', ' ') + ' image', grid_mapping='goes_imager_projection'),)
    nadir = [-75.0, -75.2, -137.0][case['date']]
    proj = dict(perspective_point_height=35786023., semi_major_axis=6378137., longitude_of_projection_origin=nadir, sweep_angle_axis='x', grid_mapping_name='geostationary')
    data['goes_imager_projection'] = ('time', np.full(len(times), -2147483647, 'i4'), proj)
    data['nominal_satellite_subpoint_lon'] = ('time', np.full(len(times), nadir), dict(units='degrees_east'))
    data['nominal_satellite_subpoint_lat'] = ('time', np.zeros(len(times)), dict(units='degrees_north'))
    data['DQF'] = (('time', 'y', 'x'), np.zeros((len(times), ncell // nx, nx), 'f4'))
    ds = xr.Dataset(data, coords=dict(time=np.array(times, 'M8[ns]'), x=np.arange(nx) * 56e-6, y=-np.arange(ncell // nx) * 56e-6), attrs=dict(platform_ID='G16'))
    ds = ds.drop_vars(case.get('drop', []))
    dtm = dt.timedelta(minutes=minutes)
    rng = ranges(case, min(times), dtm)
    keep = ds.copy(deep=True)
    if rng is None:
        start = min(times)
        nb = int((max(times) - start) / dtm) + 1
    else:
        start, nb = rng[0], round((rng[1] - rng[0]) / dtm)
    bins = [(start + dtm * i, start + dtm * (i + 1)) for i in range(nb)]
    member = [[k for k, t in enumerate(times) if a <= t < b] for a, b in bins]
    if rng is not None and not any(member):
        return      # nothing inside the range
    agg = aggregate(ds, minutes, start_end=rng) if rng is not None else aggregate(ds, minutes)
    require(keep.identical(ds), 'the images were altered')
    seen = {}
    for i, iv in enumerate(agg.time_bins.values):
        key = (iv.left.to_pydatetime(), iv.right.to_pydatetime())
        require(key in bins, 'interval %s to %s is not one of %s', key[0], key[1], bins)
        require(key not in seen, 'interval twice')
        seen[key] = i
    edges = {e for b in seen for e in b}
    require(np.datetime64(agg.attrs['time_coverage_start'].rstrip('Z')) == np.datetime64(min(edges)) and np.datetime64(agg.attrs['time_coverage_end'].rstrip('Z')) == np.datetime64(max(edges)),
            'coverage %s to %s, intervals are %s', agg.attrs['time_coverage_start'], agg.attrs['time_coverage_end'], sorted(seen))
    for b, m in zip(bins, member):
        if not m:
            if b in seen:
                for f in ALL:
                    if f in agg:
                        require((np.nan_to_num(agg[f].isel(time_bins=seen[b]).values) == 0).all(), '%s has data in an interval without images', f)
            continue
        require(b in seen, 'no interval %s to %s for the images in it', *b)
        for f in ALL:
            if f in case.get('drop', []):
                continue
            require(f in agg, 'no %s', f)
            got = np.asarray(agg[f].isel(time_bins=seen[b]).transpose('y', 'x').values, 'f8').ravel()
            want = np.array([combine(f, [KINDS[c[k]] for k in m]) for c in contents])
            none = np.isnan(want)
            bad = np.where(none, np.nan_to_num(got) != 0, ~(np.abs(got - want) <= 1e-5 * np.abs(want)))
            if bad.any():
                k = int(np.argwhere(bad)[0])
                require(False, '%s over %s to %s is %s where the images hold %s, expected %s', f, b[0], b[1], got[k], [KINDS[contents[k][q]] and KINDS[contents[k][q]][f] for q in m], want[k])
            if f == 'minimum_flash_area' or f.startswith('average'):
                require(np.isnan(got[none]).all(), '%s is %s where there is no lightning', f, got[none][:3])
            trace.agree(len(got))
        if 'goes_imager_projection' in agg:
            require((np.asarray(agg.goes_imager_projection.isel(time_bins=seen[b])) == -2147483647).all(), 'projection variable')
        for v, want in (('nominal_satellite_subpoint_lon', nadir), ('nominal_satellite_subpoint_lat', 0.)):
            require(v in agg and (np.asarray(agg[v].isel(time_bins=seen[b])) == want).all(), '%s is not %s', v, want)
        trace.step(b, m, [np.nan_to_num(agg[f].isel(time_bins=seen[b]).values) for f in ALL if f in agg])
    for f in SUM + ['minimum_flash_area']:
        require(f not in agg or agg[f].attrs.get('units') == UNITS[f], 'units of %s are %s, expected %s', f, f in agg and agg[f].attrs.get('units'), UNITS[f])
    if 'goes_imager_projection' in ds:
        require('goes_imager_projection' in agg and dict(agg.goes_imager_projection.attrs) == proj, 'projection parameters are %s', agg.goes_imager_projection.attrs if 'goes_imager_projection' in agg else None)
    require(np.array_equal(agg.x.values, ds.x.values) and np.array_equal(agg.y.values, ds.y.values), 'coordinates')


def combine(f, parts):
    parts = [p for p in parts if p is not None and not np.isnan(p[f])]
    if not parts:
        return np.nan
    if f in SUM:
        return sum(p[f] for p in parts)
    if f == 'minimum_flash_area':
        return min(p[f] for p in parts)
    n = 'flash_extent_density' if 'flash' in f else 'group_extent_density'
    return sum(p[f] * p[n] for p in parts) / sum(p[n] for p in parts)
