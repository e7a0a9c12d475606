"""C11: time frames."""
import datetime as dt
import glob
import itertools
import os
import pickle

import numpy as np
import xarray as xr

from mc import core, lcfa, gridding as M
from mc.core import require
from mc.checks import c10
from glmtools.io.glm import GLMDataset
from glmtools.io.mimic_lma import read_flashes, sec_since_basedate

BOUNDS = {
    'quick': '6 dates (plain, across midnight, year end, leap day, day after month end, whole day) x 4 frame layouts x every combination of file time, flash time and group time '
             'out of 7 positions around the frame edges (before, on the first edge, inside, just before and on an inner edge, just before and on the last edge); '
             'images written for 1 to 3 frames with and without lightning; conversion of times over 9 base dates',
    'thorough': 'as quick with 10 positions, two files at a time, and 6 frame layouts',
}
ASSUMPTIONS = c10.ASSUMPTIONS[:1]

STARTS = ['2018-07-02T04:33:00', '2018-07-02T23:59:00', '2018-12-31T23:59:30', '2020-02-28T23:58:30', '2019-05-01T00:00:00', '2020-02-29T12:00:00']
# number of frames, seconds
LAYOUTS = [(2, 60.0), (3, 20.0), (1, 60.0), (4, 0.5), (2, 300.0), (3, 3600.0)]


def positions(n, sec, th):
    end = n * sec
    inner = sec if n > 1 else sec / 2
    p = [-0.002, 0.0, sec * .3 // .002 * .002, inner - .002, inner, end - .002, end]
    if th:
        p += [0.002, inner + .002, end + 40]
    return [round(v, 3) for v in p]


def cases(tier):
    th = tier == 'thorough'
    for s in STARTS:
        for n, sec in LAYOUTS if th else LAYOUTS[:4]:
            for fp in positions(n, sec, th):
                yield dict(kind='frames', start=s, n=n, sec=sec, file=fp, th=th)
            if th:
                for a, b in itertools.combinations(positions(n, sec, False), 2):
                    yield dict(kind='two', start=s, n=n, sec=sec, a=a, b=b)
    for s in STARTS[:4]:
        for n, sec in ((1, 60.0), (2, 60.0), (3, 20.0)):
            for what in ('some', 'off', 'quiet', 'mixed'):
                yield dict(kind='images', start=s, n=n, sec=sec, what=what)
    yield dict(kind='seconds')


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def file_at(t0, when, nadir, flashes):
    """file starting at t0+when holding flashes [(flash time, [group times])] relative to t0, isolated in space"""
    x0, y0 = c10.REGIONS['conus']
    F, G, E = [], [], []
    for k, (ft, gts) in enumerate(flashes):
        p = M.at(x0 + (k % 5) * 450e-6 + 20e-6, y0 + (k // 5) * 420e-6 + 15e-6, nadir)
        ms = lambda t: int(round((t - when) * 1000))
        F.append(dict(id=k + 1, t=ms(ft), t1=ms(ft) + 100, **p))
        for gt in gts:
            G.append(dict(id=500 + len(G), fl=k + 1, t=ms(gt), **p))
            E.append(dict(id=9000 + len(E), gr=G[-1]['id'], t=ms(gt), **p))
    return dict(F=F, G=G, E=E, nadir=nadir, start=(t0 + dt.timedelta(seconds=when)).isoformat())


def setup(case):
    t0 = lcfa.when(case['start'])
    x0, y0 = c10.REGIONS['conus']
    dx, dy = 112e-6, 112e-6
    g, mesh = c10.setup((x0 - 8 * dx, x0 + 24 * dx), (y0 - 8 * dy, y0 + 24 * dy), dx, dy, -75.0,
                        t0=t0, t1=t0 + dt.timedelta(seconds=case['n'] * case['sec']), frame=case['sec'])
    te = [t0 + dt.timedelta(seconds=case['sec'] * i) for i in range(case['n'] + 1)]
    return t0, g, mesh, te


def run(g, mesh, files, te, trace, what):
    x0, y0 = c10.REGIONS['conus']
    lut, off = c10.small_lut(x0, y0)
    for d in files:
        glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
        read_flashes(glm, g.framer, base_date=g.t_ref, clip_events=mesh, fixed_grid=True, nadir_lon=-75.0, corner_pickle=lut)
    want = c10.with_corners(off, M.model, files, g.xedge, g.yedge, te)
    trace.agree(M.compare(M.grids_of(g), *want, require, what))
    trace.step([np.round(np.asarray(v).sum(axis=(0, 1)), 3) for v in M.grids_of(g).values()])


def check_frames(case, trace):
    pos = positions(case['n'], case['sec'], case['th'])
    # offsets from the file start are stored in 16 bits of 2 ms
    ok = [p for p in pos if abs(p - case['file']) <= 60]
    t0, g, mesh, te = setup(case)
    todo = [(f, [a, f]) for f, a in itertools.product(ok, ok)]
    while todo:
        t0, g, mesh, te = setup(case)
        d = file_at(t0, case['file'], -75.0, todo[:25])
        todo = todo[25:]
        run(g, mesh, [d], te, trace, 'file at %s' % case['file'])


def check_two(case, trace):
    t0, g, mesh, te = setup(case)
    fs = []
    for w in (case['a'], case['b']):
        near = [p for p in positions(case['n'], case['sec'], False) if abs(p - w) <= 60][:5]
        fs.append(file_at(t0, w, -75.0, [(p, [p]) for p in near]))
    run(g, mesh, fs, te, trace, 'two files')
    t0, g, mesh, te = setup(case)
    run(g, mesh, fs[::-1], te, trace, 'two files')


def check_images(case, trace):
    t0 = lcfa.when(case['start'])
    n, sec = case['n'], case['sec']
    x0, y0 = c10.REGIONS['conus']
    dx = 112e-6
    files = []
    for i in range(n):
        w = i * sec
        full = file_at(t0, w, -75.0, [(w + 1, [w + 1]), (w + 2.5, [w + 2.5, w + 3])][:1 + i % 2])
        empty = dict(full, F=[], G=[], E=[])
        away = dict(full)
        for lvl in 'FGE':
            away[lvl] = [dict(r, **M.at(x0 + .05, y0 - .06, -75.0)) for r in full[lvl]]
        files.append({'some': full, 'off': away, 'quiet': empty, 'mixed': [empty, full, away][i % 3]}[case['what']])
    paths = [lcfa.write(d, core.scratch()) for d in files]
    out = os.path.join(core.scratch(), 'out')
    nx, ny = 30, 26
    xb, yb = (x0 - 6 * dx, x0 + (nx - 6) * dx), (y0 - 8 * dx, y0 + (ny - 8) * dx)
    M.grid_files(paths, t0, t0 + dt.timedelta(seconds=n * sec), xb, yb, dx, dx, sec, -75.0, os.path.join(out, '{start_time:%Y%m%d%H%M%S}_{dataset_name}'))
    made = sorted(glob.glob(os.path.join(out, '*.nc')))
    require(len(made) == n, '%d images for %d frames', len(made), n)
    te = [t0 + dt.timedelta(seconds=sec * i) for i in range(n + 1)]
    xe, ye = xb[0] + dx * np.arange(nx + 1), yb[0] + dx * np.arange(ny + 1)
    want, sliver, amb = M.model(files, xe, ye, te)
    for i, f in enumerate(made):
        with xr.open_dataset(f) as d:
            a, b = (lcfa.when(d.attrs[k].rstrip('Z')) for k in ('time_coverage_start', 'time_coverage_end'))
            require((a, b) == (te[i], te[i + 1]), 'image %d covers %s to %s', i, a, b)
            got = {}
            for fld, name in zip(M.FIELDS, M.NAMES):
                v = np.nan_to_num(np.asarray(d[name].values, 'f8'))[::-1].T[:, :, None]
                got[fld] = v
            got['total_flash_area'] = got['total_flash_area'] * got['flash_extent_density']
            got['total_group_area'] = got['total_group_area'] * got['group_extent_density']
            trace.agree(M.compare(got, {k: v[:, :, i:i + 1] for k, v in want.items()}, sliver[:, :, i:i + 1], amb[:, :, i:i + 1], require, 'image %d' % i))
            trace.step([np.round(v.sum(), 2) for v in got.values()])


def check_seconds(case, trace):
    bases = [dt.datetime(2018, 7, 2), dt.datetime(2018, 7, 1), dt.datetime(2018, 7, 3), dt.datetime(2000, 1, 1), dt.datetime(2020, 2, 29), dt.datetime(2020, 3, 1),
             dt.datetime(1999, 12, 31, 23, 59, 59), dt.datetime(2018, 7, 2, 4, 33, 0, 250000), dt.datetime(2030, 1, 1)]
    times = [dt.datetime(2018, 7, 2, 4, 33) + dt.timedelta(milliseconds=m) for m in (-1, 0, 2, 500, 59998, 86400000)]
    times += [dt.datetime(2020, 2, 29, 23, 59, 59, 998000), dt.datetime(2020, 3, 1), dt.datetime(2018, 12, 31, 23, 59, 59)]
    for b in bases:
        arr = np.array(times, dtype='datetime64[ns]')
        got = sec_since_basedate(arr, b)
        for g, t in zip(got, times):
            w = (t - b).total_seconds()
            require(abs(float(g) - w) < 1e-6, '%s since %s is %s', t, b, float(g))
            one = float(sec_since_basedate(np.datetime64(t), b))
            require(abs(one - w) < 1e-6, '%s since %s is %s', t, b, one)
            trace.step(float(g))
            trace.agree(2)
