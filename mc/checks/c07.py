"""C07: fixed grid coordinates are line-of-sight angles."""
import datetime as dt
import itertools

import numpy as np

from mc import lcfa, nav
from mc.core import require, digest, scratch
from glmtools.io import lightning_ellipse as le
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'lattice of 31 x 31 longitudes and latitudes within 75 degrees of nadir, 9 satellite longitudes, 2 ellipsoids, 3 longitude ranges, 4 array forms; 3 heights of the satellite and 3 x 3 radii of the earth; '
             'dates: every month 2017-2020 and +-1 s, 1 min, 1 h, 1 day around the change; opened files: 6 dates x 3 revisions x 5 nadirs',
    'thorough': 'lattice of 151 x 151, 37 satellite longitudes, 2 ellipsoids, 3 longitude ranges, 4 array forms; every day of 2018; opened files: 14 dates x 3 revisions x 9 nadirs',
}


def cases(tier):
    th = tier == 'thorough'
    sats = [-75.0, -75.2, -89.5, -137.2, -137.0, 0.0, 140.7, 179.9, -180.0]
    if th:
        sats += [float(x) for x in range(-170, 180, 12)]
    step = 1 if th else 5
    for sat, rev in itertools.product(sats, (0, 1)):
        for wrap in ('plain', 'pm180', '0-360'):
            for form in ('f8', 'scalar', '2d', 'int'):
                if form == 'scalar' and wrap != 'pm180':
                    continue
                yield dict(kind='lattice', sat=sat, rev=rev, wrap=wrap, form=form, step=step if form != 'scalar' else 25)
    for h, re, rp in itertools.product((nav.H, 35.786023e6 - 10000.0, 36e6), (nav.RE_GRS80, 6.378169e6, 6.39e6), (nav.RP_GRS80, 6.3565838e6, 6.3e6)):
        yield dict(kind='radii', height=h, re=re, rp=rp)
    days = [(y, m, 1) for y in (2017, 2018, 2019, 2020) for m in range(1, 13)]
    if th:
        days += [(2018, (dt.date(2018, 1, 1) + dt.timedelta(i)).month, (dt.date(2018, 1, 1) + dt.timedelta(i)).day) for i in range(365)]
    for d in days:
        yield dict(kind='date', t=dt.datetime(*d).isoformat())
    for s in (-86400, -3600, -60, -1, 0, 1, 60, 3600, 86400):
        yield dict(kind='date', t=(dt.datetime(2018, 10, 15) + dt.timedelta(seconds=s)).isoformat())
    dates = ['2018-07-02T04:33:00', '2018-10-14T23:59:40', '2018-10-15T00:00:00', '2018-10-15T00:00:20', '2018-12-31T23:59:40', '2020-02-29T12:00:00']
    if th:
        dates += ['2017-12-31T23:59:40', '2018-10-14T00:00:00', '2018-10-15T12:00:00', '2018-01-01T00:00:00', '2018-11-07T01:00:00', '2019-01-14T00:00:00', '2021-10-14T00:00:00', '2018-09-30T00:00:00']
    nadirs = [-75.0, -75.2, -89.5, -137.2, -137.0] + ([-60.5, 140.7, 10.0, -100.25] if th else [])
    for t, rev, nad in itertools.product(dates, (-1, 0, 1), nadirs):
        yield dict(kind='file', t=t, rev=rev, nadir=nad, disk=(nad == -75.0))


def close(a, b, tol):
    return abs(a - b) <= tol


def check(case, trace):
    k = case['kind']
    if k == 'date':
        t = dt.datetime.fromisoformat(case['t'])
        want = 0 if t < dt.datetime(2018, 10, 15) else 1
        got = le.ltg_ellpse_rev(t)
        require(got == want, 'ellipsoid revision on %s is %s', t, got)
        require(tuple(le.ltg_ellps_radii(t)) == nav.ELLIPSOIDS[want], 'radii on %s are %s', t, le.ltg_ellps_radii(t))
        trace.step(case['t'], got)
        trace.agree(2)
        return
    if k == 'radii':
        for lon, lat in itertools.product((-100.0, -75.0, -50.0), (-30.0, 0.0, 45.0)):
            for rev in (0, 1):
                x, y = le.ltg_ellps_lon_lat_to_fixed_grid(lon, lat, -75.0, rev, re_grs80=case['re'], rp_grs80=case['rp'], sat_grs80_height=case['height'])
                wx, wy = nav.fixed_grid(lon, lat, -75.0, rev, height=case['height'], re=case['re'], rp=case['rp'])
                require(close(float(x[0]), wx, 1e-9) and close(float(y[0]), wy, 1e-9), 'height %s, radii %s and %s', case['height'], case['re'], case['rp'])
                trace.step(float(x[0]), float(y[0]))
                trace.agree()
        return
    if k == 'lattice':
        return lattice(case, trace)
    return opened(case, trace)


def lattice(case, trace):
    sat, rev, step = case['sat'], case['rev'], case['step']
    dl = list(range(-75, 76, step))
    la = list(range(-75, 76, step))
    pts = [(sat + a, b) for a in dl for b in la]
    if case['form'] == 'int':
        pts = [(round(a), b) for a, b in pts]
    if case['wrap'] == 'pm180':
        pts = [((a + 180.0) % 360.0 - 180.0, b) for a, b in pts]
    elif case['wrap'] == '0-360':
        pts = [(a % 360.0, b) for a, b in pts]
    form = case['form']
    lon, lat = np.array([p[0] for p in pts], dtype='f8'), np.array([p[1] for p in pts], dtype='f8')
    if form == '2d':
        lon, lat = lon.reshape(len(dl), len(la)), lat.reshape(len(dl), len(la))
    if form == 'int':
        lon, lat = np.round(lon).astype('i8'), lat.astype('i8')
    if form == 'scalar':
        res = [le.ltg_ellps_lon_lat_to_fixed_grid(a, b, sat, rev) for a, b in pts]
        gx, gy = np.array([np.ravel(r[0])[0] for r in res]), np.array([np.ravel(r[1])[0] for r in res])
        trace.steps += len(pts) - 1
    else:
        keep = lon.copy(), lat.copy()
        gx, gy = le.ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat, rev)
        require(np.array_equal(lon, keep[0]) and np.array_equal(lat, keep[1]), 'the given positions were changed')
        require(gx.shape == lon.shape and gy.shape == lon.shape, 'shape of the result')
    lon, lat, gx, gy = [np.ravel(np.asarray(v, dtype='f8')) for v in ((lon, lat, gx, gy) if form != 'scalar' else
                                                                      ([p[0] for p in pts], [p[1] for p in pts], gx, gy))]
    for a, b, x, y in zip(lon, lat, gx, gy):
        wx, wy = nav.fixed_grid(a, b, sat, rev)
        require(close(x, wx, 2e-9) and close(y, wy, 2e-9), 'lon %s lat %s from %s rev %s: (%s, %s), expected (%s, %s)', a, b, sat, rev, x, y, wx, wy)
    trace.step(gx, gy)
    trace.agree(len(gx))


def opened(case, trace):
    nad = case['nadir']
    offs = [(-60, 0), (-40, -30), (-10, 50), (0, 0), (0, -54), (15, 20), (44, 31), (60, -5)]
    F, G, E = [], [], []
    for i, (a, b) in enumerate(offs):
        pos = lambda s: dict(lon=(nad + a + s + 180.0) % 360.0 - 180.0, lat=b + s)
        F.append(dict(id=50 - i, **pos(0.5)))
        G.append(dict(id=20 + (i * 3) % 8, fl=50 - i, **pos(0.25)))
        lon = nad + a + 0.125
        E.append(dict(id=100 + (i * 5) % 8, gr=20 + (i * 3) % 8, lon=lon, lat=b + 0.125))
    # the instrument looks from elsewhere than the nominal place of the satellite
    d = dict(F=F, G=G, E=E, start=case['t'], nadir=nad, subpoint=nad - 0.2, lon_bounds=[nad - 80.0, nad + 53.0])
    src = lcfa.decoded(d)
    ref = lcfa.decoded(d)
    rev = case['rev']
    want_rev = rev if rev >= 0 else (0 if lcfa.when(case['t']) < dt.datetime(2018, 10, 15) else 1)
    arg = lcfa.write(d, scratch()) if case['disk'] else src
    kw = {} if rev < 0 else {'ellipse_rev': rev}
    glm = GLMDataset(arg, **kw)
    ds = glm.dataset
    for lvl in ('flash', 'group', 'event'):
        lon, lat = ds[lvl + '_lon'].values, ds[lvl + '_lat'].values
        require(np.array_equal(lon, ref[lvl + '_lon'].values) and np.array_equal(lat, ref[lvl + '_lat'].values), '%s positions changed', lvl)
    coordinates(ds, nad, want_rev, (len(F), len(G), len(E)), trace)
    (lo0, lo1), (la0, la1) = glm.fov_bounds
    require((float(lo0), float(lo1), float(la0), float(la1)) == (ref.event_lon.values.min(), ref.event_lon.values.max(), ref.event_lat.values.min(), ref.event_lat.values.max()), 'extent of the events')
    # the coordinates follow their rows when flashes are picked
    coordinates(glm.get_flashes([50, 47, 44]), nad, want_rev, (3, 3, 3), trace)
    ds.close()


def coordinates(ds, nad, want_rev, sizes, trace):
    for lvl, n in zip(('flash', 'group', 'event'), sizes):
        lon, lat = ds[lvl + '_lon'].values, ds[lvl + '_lat'].values
        gx, gy = ds[lvl + '_x'].values, ds[lvl + '_y'].values
        require(gx.shape == (n,) and gy.shape == (n,), '%s coordinates have shape %s', lvl, gx.shape)
        require(ds[lvl + '_x'].dims == ds[lvl + '_y'].dims == ds[lvl + '_lon'].dims, '%s coordinates are along %s', lvl, ds[lvl + '_x'].dims)
        for i in range(n):
            wx, wy = nav.fixed_grid(float(lon[i]), float(lat[i]), float(np.float32(nad)), want_rev)
            require(close(gx[i], wx, 4e-7) and close(gy[i], wy, 4e-7), '%s row %d: (%s, %s), expected (%s, %s)', lvl, i, gx[i], gy[i], wx, wy)
        trace.step(lvl, gx, gy)
        trace.agree(n)
