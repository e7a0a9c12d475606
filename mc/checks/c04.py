"""C04: selecting flashes by place and size."""
import itertools

import numpy as np

from mc import lcfa, nav
from mc.core import require, digest
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': '9 datasets of up to 25 flashes placed below, on, inside and above each bound with 1-3 groups, 1-5 events and events inside, half inside, outside the range and just and far outside the field of view; '
             'all combinations of 4 longitude, 4 latitude, 5 x and 3 y ranges (incl. none), with event check on and off; all pairs of 6 minimum event and 5 minimum group counts for each longitude or latitude range and 2 x ranges; a dataset of flashes with up to 300 events or groups with 12 minimum counts around 255; a dataset of 1200 flashes with ids above 16 bits; every two selections out of 9 and the first once more on one object',
    'thorough': 'the same datasets, full product of ranges (4 x 4 x 5 x 5), 6 minimum event counts, 5 minimum group counts and both settings of the event check; each selection repeated on its own result; every three selections out of 9 on one object',
}
ASSUMPTIONS = ['fixed grid coordinates of the opened dataset are taken as given (decided by C07)']


def scene(name):
    """Flashes with everything needed to be kept or dropped for one reason only."""
    nadir = -137.0 if name == 'wrap' else -75.0
    F, G, E = [], [], []

    def flash(lon, lat, groups, evpos=None):
        fid = 900 - 7 * len(F) if name != 'u16' else [65535, 0, 32768, 1, 40000, 7, 8, 9, 10, 11, 12, 13][len(F)]
        F.append(dict(id=fid, lon=lon, lat=lat))
        for n in groups:
            gid = 5000 + (len(G) * 37) % (501 if name != 'many' else 5003)
            G.append(dict(id=gid, fl=fid, lon=lon, lat=lat))
            for k in range(n):
                p = evpos[len(E) % len(evpos)] if evpos else (lon, lat)
                E.append(dict(id=100000 - len(E), gr=gid, lon=p[0], lat=p[1]))
    if name in ('grid', 'wrap'):
        w = -62.0 if name == 'wrap' else 0.0
        for i, lon in enumerate((-81.0, -80.0, -75.5, -70.0, -69.0)):
            for j, lat in enumerate((9.0, 10.0, 15.25, 20.0, 21.0)):
                flash(lon + w, lat, [1] * (1 + (i + j) % 3))
    elif name in ('counts', 'u16'):
        for groups in ([1], [2], [1, 1], [3], [1, 2], [1, 1, 1], [5], [2, 2, 1], [1, 4], [2, 3], [4], [2, 2])[:12]:
            flash(-75.0 - 0.5 * len(F), 15.0, groups)
    elif name == 'straddle':
        inside, out1, out2, fov = (-75.0, 15.0), (-60.0, 15.0), (-75.0, 40.0), (-75.0, 63.0)
        for c in (inside, out1, out2):
            for ev in ([inside], [out1], [out2], [fov], [inside, out1], [inside, fov], [out1, out2], [out1, fov]):
                flash(c[0], c[1], [2], ev)
    elif name == 'fov':
        for lat, lon in ((63.0, -75.0), (-63.0, -75.0), (50.0, -75.0), (10.0, -75.0), (0.0, -10.0), (0.0, -140.0), (30.0, -125.0)):
            flash(-75.0, 15.0, [1], [(lon, lat)])
            flash(lon, lat, [2], [(lon, lat), (-75.0, 15.0)])
            flash(lon, lat, [1, 1], [(lon, lat)])
    elif name == 'rim':
        # just inside and outside the field of view on each side
        for v, axis, sgn in itertools.product((0.1346, 0.1352), (0, 1), (1, -1)):
            p = nav.lon_lat(*((v * sgn, 0.01) if axis == 0 else (0.01, v * sgn)), nadir, 0)
            flash(-75.0, 15.0, [1], [p])
            flash(p[0], p[1], [2], [p])
    elif name == 'many':
        # more than 255 events or groups in a flash
        for groups in ([300], [1] * 260, [2] * 150, [255], [1] * 255, [256], [1] * 256, [1]):
            flash(-75.0 - 0.5 * len(F), 15.0, groups)
    elif name == 'one':
        flash(-75.5, 15.25, [1, 2])
    return dict(F=F, G=G, E=E, nadir=nadir)


NAMES = ['one', 'many', 'grid', 'counts', 'u16', 'straddle', 'fov', 'rim', 'wrap']
LON = [None, (-80.0, -70.0), (-75.5, -69.5), (-200.0, 0.0)]
LAT = [None, (10.0, 20.0), (-90.0, 15.25), (15.0, 16.0)]
# fixed grid ranges: numbers or names of values taken from the opened dataset
XR = [None, (-0.02, 0.005), ('f', 0.02), (-0.5, 0.5), ('e', 0.1)]
YR = [None, (0.03, 0.06), ('f', 0.09), (-0.2, 0.2), ('e', 0.14)]
MINE = [None, 0, 1, 2, 3, 5, 44, 255, 256, 257, 300, 301]
MING = [None, 1, 2, 3, 4, 150, 255, 256, 257, 260, 261]


# selections with as many flashes, the same first and the same last one
PICKS = [dict(lat_range=(0.0, 15.0)), dict(lat_range=(10.0, 20.0)), dict(lon_range=(-80.0, -70.0)), dict(lon_range=(-76.0, -60.0)), dict(min_events=2, lat_range=(0.0, 20.0)), dict(min_groups=2), [1, 3, 5], [1, 2, 5], dict()]


def check_history(case, trace):
    """Selections one after another on one object."""
    F, G, E = [], [], []
    # flash 1 and 5 are in every one
    for fid, lat, lon, ng, ne in ((1, 12.0, -75.0, 2, 1), (2, 5.0, -65.0, 1, 3), (3, 17.0, -78.0, 1, 1), (4, 30.0, -85.0, 2, 1), (5, 12.0, -75.0, 2, 2)):
        F.append(dict(id=fid, lat=lat, lon=lon))
        for _ in range(ng):
            G.append(dict(id=50 - len(G), fl=fid, lat=lat, lon=lon))
            for _ in range(ne):
                E.append(dict(id=200 - len(E), gr=G[-1]['id'], lat=lat, lon=lon))
    glm = GLMDataset(lcfa.decoded(dict(F=F, G=G, E=E)), ellipse_rev=0)
    before = digest(glm.dataset)
    evs = {f['id']: [e['id'] for e in E if any(g['id'] == e['gr'] and g['fl'] == f['id'] for g in G)] for f in F}
    grs = {f['id']: [g['id'] for g in G if g['fl'] == f['id']] for f in F}
    for p in case['picks'] + case['picks'][:1]:
        pick = PICKS[p]
        if isinstance(pick, list):
            out, want = glm.get_flashes(pick), set(pick)
        else:
            out = glm.subset_flashes(**pick)
            want = {f['id'] for f in F if inside(f['lat'], pick.get('lat_range')) and inside(f['lon'], pick.get('lon_range'))
                    and len(evs[f['id']]) >= pick.get('min_events', 0) and len(grs[f['id']]) >= pick.get('min_groups', 0)}
        judge(out, want, grs, evs, pick)
        trace.step('history', sorted(want))
        trace.agree(3)
    require(digest(glm.dataset) == before, 'the source was modified')


def check_crowd(case, trace):
    """As many flashes as a busy file has, with large ids."""
    n = case['n']
    fid = lambda i: 70000 * (i % 3) + (i * 7919) % 60013
    F = [dict(id=fid(i), lon=-90.0 + .01 * i, lat=-20.0 + .5 * (i % 80)) for i in range(n)]
    G = [dict(id=500000 + 3 * ((i * 31) % (2 * n)), fl=fid(i % n), lon=-75.0, lat=15.0) for i in range(2 * n) if i < n or i % 3]
    E = [dict(id=900000 - k, gr=G[(k * 17) % len(G)]['id'], lon=-75.0, lat=15.0) for k in range(len(G))] + [dict(id=10 + k, gr=G[4 * k]['id'], lon=-75.0, lat=15.0 if k % 2 else 64.0) for k in range(len(G) // 4)]
    glm = GLMDataset(lcfa.decoded(dict(F=F, G=G, E=E, flash_id_bytes=4)), ellipse_rev=0)
    gof = {g['id']: g['fl'] for g in G}
    evs, grs = {f['id']: [] for f in F}, {f['id']: [] for f in F}
    for g in G:
        grs[g['fl']].append(g['id'])
    for e in E:
        evs[gof[e['gr']]].append(e['id'])
    for kw in (dict(), dict(check_event_xy=False), dict(lon_range=(-89.005, -60.0)), dict(lat_range=(-10.25, 12.25)), dict(lon_range=(-90.0, -80.005), min_events=2), dict(min_groups=2), dict(min_events=3, min_groups=2, lat_range=(0.0, 90.0))):
        want = {f['id'] for f in F if inside(f['lon'], kw.get('lon_range')) and inside(f['lat'], kw.get('lat_range')) and len(evs[f['id']]) >= kw.get('min_events', 0) and len(grs[f['id']]) >= kw.get('min_groups', 0)}
        judge(glm.subset_flashes(**kw), want, grs, evs, kw)
        trace.step('crowd', n, len(want))
        trace.agree(3)


def cases(tier):
    for n in (1200, 3000) if tier == 'thorough' else (1200,):
        yield dict(kind='crowd', n=n)
    yield dict(kind='many', lon=0, lat=0, x=[0], y=[0], e=list(range(6, len(MINE))), g=[0] + list(range(5, len(MING))), again=False)
    for picks in itertools.product(range(len(PICKS)), repeat=3 if tier == 'thorough' else 2):
        yield dict(kind='history', picks=list(picks))
    for name in NAMES:
        if name == 'many':
            continue
        for lon, lat in itertools.product(range(len(LON)), range(len(LAT))):
            if tier == 'thorough':
                for xr_ in range(len(XR)):
                    yield dict(kind=name, lon=lon, lat=lat, x=[xr_], y=list(range(len(YR))), e=list(range(6)), g=list(range(5)), again=True)
            else:
                yield dict(kind=name, lon=lon, lat=lat, x=[0, 1, 2, 3, 4], y=[0, 1, 2], e=[0], g=[0], again=lon == 0)
                if lon == 0 or lat == 0:
                    yield dict(kind=name, lon=lon, lat=lat, x=[0, 1], y=[0], e=list(range(6)), g=list(range(5)), again=False)
                    yield dict(kind=name, lon=lon, lat=lat, x=[0], y=[3, 4], e=[0, 3], g=[0, 2], again=False)


def resolve(rng, glm, axis):
    if rng is None or not isinstance(rng[0], str):
        return rng
    v = glm.dataset[('flash_' if rng[0] == 'f' else 'event_') + axis].values
    return (float(np.sort(v)[len(v) // 2]), rng[1])


def inside(v, r):
    return r is None or r[0] < v < r[1]


def check(case, trace):
    if case['kind'] in ('history', 'crowd'):
        return globals()['check_' + case['kind']](case, trace)
    d = scene(case['kind'])
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    # another file is open at the same time
    twin = GLMDataset(lcfa.decoded(lcfa.tree([[1], [2, 1]])), ellipse_rev=0)
    before = digest(glm.dataset)
    ds = glm.dataset
    fx = dict(zip(map(int, ds.flash_id.values), zip(map(float, ds.flash_x.values), map(float, ds.flash_y.values))))
    ex = dict(zip(map(int, ds.event_id.values), zip(map(float, ds.event_x.values), map(float, ds.event_y.values))))
    gof = {g['id']: g['fl'] for g in d['G']}
    evs = {f['id']: [e['id'] for e in d['E'] if gof[e['gr']] == f['id']] for f in d['F']}
    grs = {f['id']: [g['id'] for g in d['G'] if g['fl'] == f['id']] for f in d['F']}
    lonr, latr = LON[case['lon']], LAT[case['lat']]
    if case['kind'] == 'wrap' and lonr:
        lonr = (lonr[0] - 62.0, lonr[1] - 62.0)
    for xi, yi, e, g, chk in itertools.product(case['x'], case['y'], case['e'], case['g'], (True, False)):
        xr_, yr_ = resolve(XR[xi], glm, 'x'), resolve(YR[yi], glm, 'y')
        kw = {}
        if lonr is not None: kw['lon_range'] = lonr
        if latr is not None: kw['lat_range'] = latr
        if xr_ is not None: kw['x_range'] = xr_
        if yr_ is not None: kw['y_range'] = yr_
        if MINE[e] is not None: kw['min_events'] = MINE[e]
        if MING[g] is not None: kw['min_groups'] = MING[g]
        if not chk: kw['check_event_xy'] = False
        lim = 0.1349
        ex_r = (max(-lim, xr_[0]), min(lim, xr_[1])) if xr_ else (-lim, lim)
        ey_r = (max(-lim, yr_[0]), min(lim, yr_[1])) if yr_ else (-lim, lim)
        want = set()
        for f in d['F']:
            i = f['id']
            ok = inside(f['lon'], lonr) and inside(f['lat'], latr) and inside(fx[i][0], xr_) and inside(fx[i][1], yr_)
            ok = ok and len(evs[i]) >= (MINE[e] or 0) and len(grs[i]) >= (MING[g] or 0)
            if chk:
                ok = ok and any(inside(ex[j][0], ex_r) and inside(ex[j][1], ey_r) for j in evs[i])
            if ok:
                want.add(i)
        out = glm.subset_flashes(**kw)
        judge(out, want, grs, evs, kw)
        trace.step(case['kind'], sorted(want))
        trace.agree(3)
        if case['again'] and want:
            g2 = GLMDataset(out, ellipse_rev=0, check_area_units=False, change_energy_units=False, fix_bad_DO07_times=False)
            judge(g2.subset_flashes(**kw), want, grs, evs, kw)
            trace.step(case['kind'], 'again', sorted(want))
            trace.agree(3)
    require(digest(glm.dataset) == before, 'the source was modified')


def judge(out, want, grs, evs, kw):
    f, g, e = lcfa.ids(out)
    require(sorted(f) == sorted(want), 'selection %s: flashes %s, expected %s', kw, sorted(f), sorted(want))
    require(sorted(g) == sorted(x for i in want for x in grs[i]), 'selection %s: groups %s', kw, g)
    require(sorted(e) == sorted(x for i in want for x in evs[i]), 'selection %s: events %s', kw, e)
