"""C25: the gridding command, from its arguments to the images."""
import datetime as dt
import glob
import itertools
import logging
import os
import runpy
import sys

import numpy as np
import xarray as xr

from mc import core, lcfa, nav, gridding as M
from mc.core import require
from mc.checks import c10
from mc.checks.c12 import FLOOR
from mc.checks.c13 import STEP

BOUNDS = {
    'quick': 'the command with its basic arguments, with every one of 25 other choices for region, spacing, times, frame length, minimum sizes, tiles, storage, path, order and names of files and ellipsoid, '
             'and with every pair of choices of time, size, tiles, storage and order, of position and region, and of names, times and order',
    'thorough': 'as quick with every pair of choices and every three of the choices for times, sizes, tiles, files and storage',
}
ASSUMPTIONS = c10.ASSUMPTIONS[:1] + ['the command is told to use the fixed grid and to split events (gridding without clipping is a known finding of C10)', 'named regions as defined for the satellite series']

SCRIPT = os.path.join(core.REPO, 'examples', 'grid', 'make_GLM_grids.py')
T0 = dt.datetime(2018, 7, 2, 4, 33)
NADIR = {'east': -75.0, 'west': -137.0, 'test': -89.5}
# argument -> other choices
SLOTS = {
    'position': ['west', 'test'],
    'grid': ['meso', 'conus', 'fine', 'ratio', 'default'],
    'start': ['20', '20.5Z', '-60'],
    'end': ['40', '120'],
    'dt': ['20', '40'],
    'nevents': ['2'],
    'ngroups': ['2'],
    'tiles': ['2', '3'],
    'scaled': ['yes'],
    'out': ['tree', 'plain'],
    'order': ['reversed', 'rotated'],
    'ellipse': ['1', '0'],
    'names': ['odd', 'short'],
}
LIGHT = ('start', 'end', 'dt', 'nevents', 'ngroups', 'tiles', 'scaled', 'order')


def cases(tier):
    th = tier == 'thorough'
    yield dict(kind='command', dev={})
    devs = [(k, v) for k, vs in SLOTS.items() for v in vs]
    for k, v in devs:
        yield dict(kind='command', dev={k: v})
    for (a, v), (b, w) in itertools.combinations(devs, 2):
        if a != b and not {'ratio', 'short'} & {v, w} and (th or (a in LIGHT and b in LIGHT and '3' not in (v, w)) or ({a, b} == {'position', 'grid'} and 'conus' not in (v, w)) or {a, b} <= {'names', 'start', 'end', 'order'}):
            yield dict(kind='command', dev={a: v, b: w})
    if th:
        for t in itertools.combinations([x for x in devs if x[0] in LIGHT], 3):
            if len({k for k, v in t}) == 3:
                yield dict(kind='command', dev=dict(t))


def finding_key(case, err):
    if case['dev'] == {'names': 'short'} and 'IndexError' in err:
        return 'short-file-names'
    if case['dev'] == {'grid': 'ratio'} and 'cells are displaced' in err:
        return 'width-just-below-whole-boxes'


def lightning(n, cx, cy, nadir, platform):
    at = lambda ux, uy: M.at(cx + (ux + 90 * n) * 1e-6, cy + (uy - 70 * n) * 1e-6, nadir)
    k = 10 * n
    F = [dict(id=k + 7, area=2400 - 50 * n, t=150, **at(17, -23)), dict(id=k + 3, area=1100 + 40 * n, t=5200, **at(437, 277)), dict(id=k + 1, area=900 + n, t=9800, **at(-683, 497))]
    G = [dict(id=k + 107, fl=k + 7, area=1200, t=150, **at(-43, 17)), dict(id=k + 108, fl=k + 7, area=1300, t=400, **at(107, -93)),
         dict(id=k + 103, fl=k + 3, area=1100, t=5200, **at(437, 277)), dict(id=k + 101, fl=k + 1, area=900, t=9800, **at(-683, 497))]
    E = [dict(id=k + 201, gr=k + 107, energy=40, **at(-143, 37)), dict(id=k + 202, gr=k + 107, energy=25, **at(7, 97)), dict(id=k + 203, gr=k + 108, energy=60, **at(127, -113)),
         dict(id=k + 204, gr=k + 108, energy=31, **at(277, -173)), dict(id=k + 205, gr=k + 103, energy=80 + n, **at(437, 277)), dict(id=k + 206, gr=k + 103, energy=20, **at(277, 157)),
         dict(id=k + 208, gr=k + 101, energy=55, **at(-683, 497))]
    return dict(F=F, G=G, E=E, nadir=nadir, platform=platform, start=(T0 + dt.timedelta(seconds=20 * n)).isoformat())


def command(argv, cwd):
    """the script as run from a shell in cwd"""
    here, old, root = os.getcwd(), sys.argv, logging.getLogger()
    handlers, level = list(root.handlers), root.level
    os.chdir(cwd)
    sys.argv = [SCRIPT] + argv
    try:
        runpy.run_path(SCRIPT, run_name='__main__')
    finally:
        os.chdir(here)
        sys.argv = old
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)


def check(case, trace):
    g = dict.get
    dev = case['dev']
    pos = g(dev, 'position', 'east')
    nadir, platform = NADIR[pos], 'G17' if pos == 'west' else 'G16'
    argv = ['--fixed_grid', '--split_events', '--goes_position', pos]
    # region
    grid = g(dev, 'grid', 'own')
    ctr = (nadir + 3.7, 14.2) if grid != 'conus' else (nadir - 8.1, 31.0)
    lx, ly = cx, cy = nav.fixed_grid_earth(ctr[0], ctr[1], nadir)
    if grid != 'conus':
        argv += ['--ctr_lon', '%.3f' % ctr[0], '--ctr_lat', '%.3f' % ctr[1]]
    if grid == 'own':
        argv += ['--width', '120', '--height', '80', '--dx', '10', '--dy', '8']
        nx, ny, dx, dy = 12, 10, 280e-6, 224e-6
    elif grid == 'fine':
        argv += ['--width=60', '--height', '72.5', '--dx', '4', '--dy', '5']
        nx, ny, dx, dy = 15, 14, 112e-6, 140e-6
    elif grid == 'ratio':
        argv += ['--width', '66', '--height', '99', '--dx', '2.2', '--dy', '3.3']
        nx, ny, dx, dy = 30, 30, 61.6e-6, 92.4e-6
    elif grid == 'default':
        nx, ny, dx, dy = 40, 40, 280e-6, 280e-6
    elif grid == 'meso':
        argv += ['--goes_sector', 'meso', '--dx', '8.3']
        nx, ny, dx, dy = 125, 125, 224e-6, 224e-6
    else:
        argv += ['--goes_sector', 'conus', '--dx', '11']
        nx, ny, dx, dy = 500, 300, 280e-6, 280e-6
        cx, cy = {'east': (-0.03136, .08624), 'west': (0.0, .08624), 'test': (-0.00504, .08456)}[pos]
    xe, ye = cx + (np.arange(nx + 1) - nx / 2.0) * dx, cy + (np.arange(ny + 1) - ny / 2.0) * dy
    # files
    files = [lightning(n, lx, ly, nadir, platform) for n in range(3)]
    src = os.path.join(core.scratch(), 'in')
    odd = 'names' in dev
    other = {'odd': 'lightning_of_some_other_day_%d.nc', 'short': 'lightning-%d.nc'}
    paths = [lcfa.write(f, src, other[dev['names']] % n if odd else None) for n, f in enumerate(files)]
    paths = {'reversed': paths[::-1], 'rotated': paths[1:] + paths[:1]}.get(g(dev, 'order'), paths)
    # times
    s0, s1 = 0, 60
    if 'start' in dev or odd:
        text = g(dev, 'start', '0')
        s0 = int(text.split('.')[0])
        argv += ['--start', (T0 + dt.timedelta(seconds=s0)).isoformat() + ('.5Z' if 'Z' in text else '')]
    if 'end' in dev or odd:
        s1 = int(g(dev, 'end', '60'))
        argv += ['--end', (T0 + dt.timedelta(seconds=s1)).isoformat()]
    step = 60
    if 'dt' in dev:
        step = int(dev['dt'])
        argv += ['--dt', dev['dt']]
    nt = -(-(s1 - s0) // step)
    te = [T0 + dt.timedelta(seconds=s0 + step * k) for k in range(nt + 1)]
    # selection
    keep = [{f['id'] for f in d['F']} for d in files]
    for name, drop in (('nevents', (1,)), ('ngroups', (1, 3))):
        if name in dev:
            argv += ['--' + name, dev[name]]
            keep = [{i for i in k if i % 10 not in drop} for k in keep]
    # the rest
    tiles = int(g(dev, 'tiles', '1'))
    if tiles > 1:
        argv += ['--subdivide_grid', str(tiles)]
    scaled = 'scaled' in dev
    if not scaled:
        argv += ['--float_output']
    rev = int(g(dev, 'ellipse', '0'))
    if 'ellipse' in dev:
        argv += ['--ellipse', dev['ellipse']]
    cwd = os.path.join(core.scratch(), 'work')
    os.makedirs(cwd)
    out = g(dev, 'out')
    top = cwd
    if out:
        top = os.path.join(core.scratch(), 'images')
        argv += ['-o', os.path.join(top, '{start_time:%Y/%b/%d}/{dataset_name}' if out == 'tree' else '{dataset_name}')]
    command(argv + paths, cwd)
    found = glob.glob(os.path.join(glob.escape(core.scratch()), '**', '*.nc'), recursive=True)
    found = sorted(set(found) - set(paths))
    want_dir = os.path.join(top, '2018', 'Jul', '02') if out == 'tree' else top
    require(all(os.path.dirname(f) == want_dir or tiles > 1 and os.path.dirname(os.path.dirname(f)) == want_dir for f in found), 'images %s, expected in %s', found, want_dir)
    # the tiles of one time make one image
    images = {}
    for f in found:
        with xr.open_dataset(f) as d:
            d = d.load()
        images.setdefault(d.attrs['time_coverage_start'][:19], []).append(d)
    require(sorted(images) == [t.isoformat() for t in te[:-1]], 'images of %s, expected %s', sorted(images), [t.isoformat() for t in te[:-1]])
    want, sliver, amb = M.model(files, xe, ye, te, rev=rev, keep=keep)
    got = {n: np.full((nx, ny, nt), np.nan) for n in M.NAMES}
    seen = np.zeros((nx, ny, nt), int)
    for k, t in enumerate(te[:-1]):
        parts = images[t.isoformat()]
        require(len(parts) == tiles ** 2, '%d files for %s, expected %d', len(parts), t, tiles ** 2)
        for p in parts:
            require(p.attrs['time_coverage_end'][:19] == te[k + 1].isoformat(), 'image of %s ends at %s', t, p.attrs['time_coverage_end'])
            require(p.attrs['platform_ID'] == platform, 'platform %s', p.attrs['platform_ID'])
            require(abs(float(p['goes_imager_projection'].attrs['longitude_of_projection_origin']) - nadir) < 1e-6, 'image for a satellite at %s', p['goes_imager_projection'].attrs)
            fx, fy = (p.x.values - xe[0]) / dx - .5, (p.y.values - ye[0]) / dy - .5
            xi, yi = np.round(fx).astype(int), np.round(fy).astype(int)
            # coordinates are stored in steps of 56 microradians
            require(np.abs(fx - xi).max() < .01 + 28e-6 / dx and np.abs(fy - yi).max() < .01 + 28e-6 / dy, 'cells are displaced by %s and %s', np.abs(fx - xi).max(), np.abs(fy - yi).max())
            require(xi.min() >= 0 and xi.max() < nx and yi.min() >= 0 and yi.max() < ny, 'the image reaches outside the region')
            seen[np.ix_(xi, yi, [k])] += 1
            for n in M.NAMES:
                got[n][np.ix_(xi, yi, [k])] = np.asarray(p[n].transpose('x', 'y').values, 'f8')[:, :, None]
    require((seen == 1).all(), 'cells of the region are in %s images', sorted(set(seen.ravel().tolist())))
    got = {n: np.nan_to_num(v) for n, v in got.items()}
    if scaled:
        fed, ged = want['flash_extent_density'], want['group_extent_density']
        with np.errstate(all='ignore'):
            want = dict(want, total_flash_area=np.nan_to_num(want['total_flash_area'] / fed), total_group_area=np.nan_to_num(want['total_group_area'] / ged))
        for f, n in zip(M.FIELDS, M.NAMES):
            bad = np.abs(got[n] - want[f]) > 1.01 * STEP[n] + 2e-3 * want[f] + FLOOR[n]
            bad &= ~amb if n.endswith('centroid_density') else ~sliver & ((fed > .01) | (fed == 0))
            require(not bad.any(), '%s is %s, expected %s', n, got[n][bad][:3], want[f][bad][:3])
            trace.agree(bad.size)
    else:
        got = {f: got[n] for f, n in zip(M.FIELDS, M.NAMES)}
        got['total_flash_area'] = got['total_flash_area'] * got['flash_extent_density']
        got['total_group_area'] = got['total_group_area'] * got['group_extent_density']
        trace.agree(M.compare(got, want, sliver, amb, require, 'images', spacing=min(dx, dy)))
    trace.step(sorted(dev.items()), len(found), {f: np.round(v.sum(axis=(0, 1)), 2).tolist() for f, v in want.items()})
