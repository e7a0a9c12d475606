"""C12: tiles against one piece."""
import datetime as dt
import itertools
import os

import numpy as np
import xarray as xr

from mc import core, lcfa, gridding as M
from mc.core import require
from mc.checks import c10
from glmtools.grid.make_grids import GridOutputPreprocess, subdivide_bnd, subdivided_fixed_grid

BOUNDS = {
    'quick': 'division of every range of 1 to 40 cells into 1 to 8 tiles for 9 spacings and 5 origins; tile options for 48 grids; padding removal for every pad of 0 to 3 cells; '
             'images of grids in 2x2 and 3x3 tiles with a straddling flash at each of 25 places about tile borders, 3 spacings, with and without scaling, selection limits, two files and two frames; flashes whose centroid is up to 2450 microradians across the border from their events, in 5 directions',
    'thorough': 'as quick with ranges up to 150 cells and 16 tiles, 49 places, 7 directions and 4x4 tiles',
}
ASSUMPTIONS = c10.ASSUMPTIONS[:1] + ['no more tiles than cells', 'flash centroids no further from the tile than the 100 km padding the code documents']
T0 = dt.datetime(2018, 7, 2, 4, 33)
SPACINGS = [28e-6, 56e-6, 112e-6, 280e-6, 84e-6, 1e-4, .1, .5, 3.0]
CONFIGS = [dict(s=2), dict(s=3), dict(s=2, scaled=True), dict(s=2, minpts=2), dict(s=2, mingr=2), dict(s=2, far=True), dict(s=2, dx=168, dy=112, far=True), dict(s=3, dx=112, dy=168, far=True), dict(s=2, frames=2, files=2), dict(s=2, dx=112, dy=168), dict(s=3, dx=56, dy=56), dict(s=2, rev=-1)]


def cases(tier):
    th = tier == 'thorough'
    for k in range(len(SPACINGS)):
        for o in range(5):
            yield dict(kind='bounds', spacing=k, origin=o, n=150 if th else 40, s=16 if th else 8)
    for dx, dy in ((28, 28), (56, 56), (112, 56), (280, 280), (3000, 56), (5600, 5600)):
        for s in (1, 2, 3, 5):
            for clip in (True, False):
                yield dict(kind='options', dx=dx, dy=dy, s=s, clip=clip)
    yield dict(kind='trim')
    m = 7 if th else 5
    for ci, c in enumerate(CONFIGS + ([dict(s=4), dict(s=4, scaled=True, frames=2)] if th else [])):
        for i in range(m):
            yield dict(kind='tiles', i=i, m=m, **c)


CHUNK = 1


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def check_bounds(case, trace):
    d = SPACINGS[case['spacing']]
    for n in range(1, case['n'] + 1):
        o = [0.0, -n * d / 2, -0.151872, 0.0437, -n * d][case['origin']]
        for s in range(1, min(n, case['s']) + 1):
            for bnd in ((o, o + n * d), np.array([o, o + n * d])):
                e = np.asarray(subdivide_bnd(bnd, d, s=s), 'f8')
                require(len(e) == s + 1, '%d tiles have %d edges', s, len(e))
                require(abs(e[0] - o) < 1e-6 * d and abs(e[-1] - (o + n * d)) < 1e-6 * d, 'tiles do not cover the range: %s of %s', e, bnd)
                k = np.diff(e) / d
                require((np.abs(k - np.round(k)) < 1e-5).all() and (k > .5).all(), 'tiles of %s cells', k)
                # equal segments but for the last one
                require(np.ptp(np.round(k[:-1])) == 0 if s > 1 else True, 'unequal tiles %s', k)
                trace.agree()
            trace.step(n, s, np.round(k))


def check_options(case, trace):
    dx, dy, s = case['dx'] * 1e-6, case['dy'] * 1e-6, case['s']
    for (nx, ny), (x0, y0) in itertools.product(((5, 7), (12, 8)), ((-.02, .03), (.0, -.1))):
        writer = object()
        kw = dict(dx=dx, dy=dy, x_bnd=np.array([x0, x0 + nx * dx]), y_bnd=np.array([y0, y0 + ny * dy]), proj_name='geos', frame_interval=60.0)
        pk = dict(nadir_lon=-75.0, fixed_grid=True, min_points_per_flash=3, min_groups_per_flash=2, ellipse_rev=0, corner_pickle='some')
        if case['clip']:
            pk['clip_events'] = True
        ok = dict(outpath='out/{dataset_name}', output_writer=writer, output_filename_prefix='GLM', output_kwargs={'scale_and_offset': False})
        given = repr((sorted(kw.items(), key=str), sorted(pk.items(), key=str), sorted((k, str(v)) for k, v in ok.items())))
        tiles = list(subdivided_fixed_grid(kw, pk, ok, **(dict(s=s) if s > 1 or nx == 5 else {})))
        require(repr((sorted(kw.items(), key=str), sorted(pk.items(), key=str), sorted((k, str(v)) for k, v in ok.items()))) == given, 'the given options were altered')
        require(len(tiles) == s * s, '%d tiles', len(tiles))
        cover = np.zeros((nx, ny), int)
        names = set()
        for ij, k, p, o, pads in tiles:
            n_x, n_y, px, py = pads
            require(abs(px - n_x * dx) < 1e-9 * max(1, n_x) and abs(py - n_y * dy) < 1e-9 * max(1, n_y), 'padding is not whole cells: %s', pads)
            bx, by = np.array(k['x_bnd'], 'f8'), np.array(k['y_bnd'], 'f8')
            lo = [(bx[0] + px - x0) / dx, (by[0] + py - y0) / dy]
            hi = [(bx[1] - px - x0) / dx, (by[1] - py - y0) / dy]
            require(all(abs(v - round(v)) < 1e-4 for v in lo + hi), 'tile %s is not on the grid', ij)
            cover[int(round(lo[0])):int(round(hi[0])), int(round(lo[1])):int(round(hi[1]))] += 1
            for a, b in ((k, kw), (p, pk)):
                for name in b:
                    if name not in ('x_bnd', 'y_bnd'):
                        require(a.get(name) == b[name], 'tile %s has option %s = %s', ij, name, a.get(name))
            # lightning is looked for in the whole padded tile
            require(p['x_bnd'][0] <= bx[0] + 1e-12 and p['x_bnd'][1] >= bx[1] - 1e-12 and p['y_bnd'][0] <= by[0] + 1e-12 and p['y_bnd'][1] >= by[1] - 1e-12, 'selection of tile %s is too small', ij)
            names.add(o['output_filename_prefix'])
            trace.step(ij, lo, hi, pads[:2])
            trace.agree()
        require((cover == 1).all(), 'tiles cover cells %s times', sorted(set(cover.ravel())))
        require(len(names) == s * s, 'tiles share a file name prefix')


def check_trim(case, trace):
    """the writer of tiles gets fields and coordinates without padding"""
    for px, py, nx, ny, calls in itertools.product(range(4), range(4), (1, 2, 5), (1, 3), (1, 2)):
        got = []
        pre = GridOutputPreprocess(pads=(px, py, px * 2.0, py * 2.0), writer=lambda *a, **k: got.append((a, k)))
        x, y = np.arange(nx + 2 * px) * 10.0, np.arange(ny + 2 * py) * 7.0
        grids = [np.arange(x.size * y.size * 2, dtype='f4').reshape(x.size, y.size, 2) + c for c in range(calls)]
        for c in range(calls):
            pre.capture_write_call('f%d' % c, 't0', [1, 2], x, y, 'lon', 'lat', 'a', 'b', grids[c], 'tail', 'more', format='i')
        require(not got, 'written before the end')
        names = pre.write_all()
        require(list(names) == ['f%d' % c for c in range(calls)], 'files %s', names)
        require(len(got) == calls, '%d fields written', len(got))
        for c, (a, k) in enumerate(got):
            require(a[0] == 'f%d' % c and a[1] == 't0' and a[2] == [1, 2] and a[5:9] == ('lon', 'lat', 'a', 'b') and a[10:] == ('tail', 'more') and k == dict(format='i'), 'arguments of the writer changed')
            require(np.array_equal(a[3], x[px:px + nx]) and np.array_equal(a[4], y[py:py + ny]), 'coordinates of padding %s %s', px, py)
            require(np.array_equal(a[9], grids[c][px:px + nx, py:py + ny]), 'field of padding %s %s', px, py)
            trace.agree(3)
        trace.step(px, py, nx, ny, calls)


def lightning(case, x0, y0, dx, dy, nx, ny, nadir, swap=False):
    """flashes of several hundred microradians, one at each place along a tile border, with smaller ones about"""
    s, m = case['s'], case['m']
    bx, by = x0 + (nx // s) * dx, y0 + (ny // s) * dy       # first inner borders
    F, G, E = [], [], []
    for n in range(m):
        i, j = (n, case['i']) if swap else (case['i'], n)
        cx = bx + (i - m // 2) * 130e-6 + 17e-6
        cy = by + (j - m // 2) * 130e-6 - 23e-6
        at = lambda ux, uy: M.at(cx + ux * 1e-6, cy + uy * 1e-6, nadir)
        k = (n * 3) % m * 10        # ids do not follow position
        F += [dict(id=k + 7, area=2400 - 50 * n, **at(0, 0)), dict(id=k + 3, area=1100 + 40 * n, **at(420, 300)), dict(id=k + 1, area=900 + n, **at(-700, 520))]
        G += [dict(id=k + 1007, fl=k + 7, area=1200, **at(-60, 40)), dict(id=k + 1008, fl=k + 7, area=1300, **at(90, -70)),
              dict(id=k + 1003, fl=k + 3, area=1100, **at(420, 300)), dict(id=k + 1001, fl=k + 1, area=900, **at(-700, 520))]
        E += [dict(id=k + 2001, gr=k + 1007, energy=40, **at(-160, 60)), dict(id=k + 2002, gr=k + 1007, energy=25, **at(-10, 120)), dict(id=k + 2003, gr=k + 1008, energy=60, **at(110, -90)),
              dict(id=k + 2004, gr=k + 1008, energy=31, **at(260, -150)), dict(id=k + 2005, gr=k + 1003, energy=80 + n, **at(420, 300)), dict(id=k + 2006, gr=k + 1003, energy=20, **at(260, 180)),
              dict(id=k + 2008, gr=k + 1001, energy=55, **at(-700, 520))]
    return dict(F=F, G=G, E=E, nadir=nadir, start=T0.isoformat())


def far(case, x0, y0, dx, dy, nx, ny, nadir):
    """flashes whose centroids lie far across the border from their last events, yet within the padding"""
    s = case['s']
    bx, by = x0 + (nx // s) * dx, y0 + (ny // s) * dy
    ux, uy = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1)][case['i']]
    F, G, E = [], [], []
    for n, away in enumerate((2450, 1900, 1350)):
        at = lambda r: M.at(bx + (r * ux if ux else 330 * n - 290) * 1e-6, by + (r * uy if uy else 330 * n - 310) * 1e-6, nadir)
        F.append(dict(id=5 - n, area=900 + 300 * n, **at(-away)))
        for k, r in enumerate((-away, -700, 60, 310)):
            G.append(dict(id=50 - 5 * n + k, fl=5 - n, area=200 + 10 * k, **at(r)))
            E.append(dict(id=500 - 5 * n + k, gr=50 - 5 * n + k, energy=30 + 7 * k + n, **at(r)))
    return dict(F=F, G=G, E=E, nadir=nadir, start=T0.isoformat())


def read(files):
    out = []
    for f in files:
        with xr.open_dataset(f) as d:
            out.append(d.load())
    return out


def check_tiles(case, trace):
    dx, dy = case.get('dx', 280) * 1e-6, case.get('dy', 280) * 1e-6
    s, nadir, rev = case['s'], -75.0, case.get('rev', 0)
    nx, ny = (11, 13) if dx > 60e-6 else (29, 34)
    x0, y0 = -0.151844 + 56e-6 * 2100 - dx / 2, 0.151844 - 56e-6 * 1500 - dy / 2
    frames = case.get('frames', 1)
    d = (far if case.get('far') else lightning)(case, x0, y0, dx, dy, nx, ny, nadir)
    files = [d]
    if case.get('files'):
        e = lightning(case, x0, y0, dx, dy, nx, ny, nadir, swap=True)
        files = [d, dict(e, start=(T0 + dt.timedelta(seconds=60)).isoformat())]
    paths = [lcfa.write(f, core.scratch()) for f in files]
    kw = dict(output_kwargs={'scale_and_offset': bool(case.get('scaled'))})
    if rev == -1:
        del kw['output_kwargs']
    if case.get('minpts'):
        kw['min_points_per_flash'] = case['minpts']
    if case.get('mingr'):
        kw['min_groups_per_flash'] = case['mingr']
    t1 = T0 + dt.timedelta(seconds=60 * frames)
    args = (paths, T0, t1, (x0, x0 + nx * dx), (y0, y0 + ny * dy), dx, dy, 60, nadir)
    name = '{start_time:%H%M}.nc' if case['i'] % 2 else '{dataset_name}'

    def run(n, sub):
        out = M.grid_files(*args, outpath=os.path.join(core.scratch(), sub, name), rev=rev, subdivide=n, **kw)
        require(len(out) == n * n and sorted(ij for ij, f in out) == sorted(itertools.product(range(n), range(n))), 'tiles reported: %s', out)
        for ij, f in out:
            require(len(f) == frames, 'tile %s reports files %s', ij, f)
        flat = [p for ij, f in out for p in f]
        require(len({os.path.abspath(p) for p in flat}) == len(flat), 'tiles were written to the same file')
        return {ij: sorted(read(f), key=lambda d: d.attrs['time_coverage_start']) for ij, f in out}
    whole = run(1, 'one')[(0, 0)]
    tiles = run(s, 'many')
    if not case.get('scaled') and rev == 0:
        # and the one piece is right
        xe, ye = x0 + dx * np.arange(nx + 1), y0 + dy * np.arange(ny + 1)
        te = [T0 + dt.timedelta(seconds=60 * k) for k in range(frames + 1)]
        keep = [{f['id'] for f in d['F'] if f['id'] % 10 != 1} for d in files] if case.get('minpts') == 2 else None
        if case.get('mingr') == 2:
            keep = [{f['id'] for f in d['F'] if f['id'] % 10 == 7} for d in files]
        want, sliver, amb = M.model(files, xe, ye, te, keep=keep)
        got = {f: np.stack([np.nan_to_num(np.asarray(w[n].transpose('y', 'x').values, 'f8'))[::-1].T for w in whole], -1) for f, n in zip(M.FIELDS, M.NAMES)}
        got['total_flash_area'] = got['total_flash_area'] * got['flash_extent_density']
        got['total_group_area'] = got['total_group_area'] * got['group_extent_density']
        trace.agree(M.compare(got, want, sliver, amb, require, 'one piece'))
    for t in range(frames):
        w = whole[t]
        require(w.x.size == nx and w.y.size == ny, 'image of %d by %d cells, expected %d by %d', w.x.size, w.y.size, nx, ny)
        seen = np.zeros((ny, nx), int)
        for ij, per in tiles.items():
            p = per[t]
            xi = np.round((p.x.values - w.x.values[0]) / dx).astype(int)
            yi = np.round((w.y.values[0] - p.y.values) / dy).astype(int)
            require(xi.min() >= 0 and xi.max() < nx and yi.min() >= 0 and yi.max() < ny, 'tile %s reaches outside the grid', ij)
            require(np.abs(w.x.values[xi] - p.x.values).max() < 30e-6 and np.abs(w.y.values[yi] - p.y.values).max() < 30e-6, 'tile %s is not on the grid', ij)
            seen[np.ix_(yi, xi)] += 1
            fed = [np.nan_to_num(d['flash_extent_density'].transpose('y', 'x').values) for d in (p, w)]
            # cells only just touched may fall on either side
            touched = np.maximum(fed[0], fed[1][np.ix_(yi, xi)]) <= 1e-3 + (M_STEP['flash_extent_density'] if case.get('scaled') else 0)
            for v in M.NAMES:
                a = np.asarray(p[v].transpose('y', 'x').values, 'f8')
                b = np.asarray(w[v].transpose('y', 'x').values, 'f8')[np.ix_(yi, xi)]
                step = 1.01 * M_STEP[v] if case.get('scaled') else 0
                bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-4 * np.abs(b) + FLOOR[v] + step))
                if not v.endswith('centroid_density'):
                    bad &= ~touched
                require(not bad.any(), 'frame %d, tile %s: %s is %s where one piece has %s', t, ij, v, a[bad][:3], b[bad][:3])
                require(p[v].encoding.get('dtype') == w[v].encoding.get('dtype'), 'tile %s stores %s as %s, one piece as %s', ij, v, p[v].encoding.get('dtype'), w[v].encoding.get('dtype'))
                trace.agree(a.size)
            for att in ('time_coverage_start', 'time_coverage_end', 'platform_ID', 'orbital_slot', 'instrument_ID'):
                require(p.attrs[att] == w.attrs[att], 'tile %s: %s', ij, att)
            trace.step(ij, [np.round(np.nan_to_num(p[v].values), 2) for v in M.NAMES])
        require((seen == 1).all(), 'cells are in %s tiles', sorted(set(seen.ravel())))


from mc.checks.c13 import STEP as M_STEP     # noqa: E402
FLOOR = {v: 1e-3 for v in M.NAMES}
FLOOR.update(total_energy=1e-8, average_flash_area=1.0, average_group_area=1.0)
