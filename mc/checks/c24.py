"""C24: drawing panels of images."""
import datetime as dt
import itertools
import re

import numpy as np
import pandas as pd
import xarray as xr
import matplotlib.pyplot as plt
from cartopy.mpl.geoaxes import GeoAxes

from mc import nav
from mc.core import require, digest
from glmtools.io.imagery import aggregate
from glmtools.plot.grid import plot_glm_grid
from glmtools.plot.values import display_params

BOUNDS = {
    'quick': 'every ordered choice of up to 2 of the 8 fields and every rotation of 3 to 8 and 12 of them, 6 layouts, 3 times, 4 grids (places, satellites, shapes), 3 pairs of colours, '
             'figures new, used before and not current, fields with cells empty, zero, below and above the scale and with none at all; images aggregated over 1, 2 and 5 minutes; times that no image has; the colour at every cell of every panel, as drawn',
    'thorough': 'the same with every ordered choice of 3 fields and all times, grids and colours for each',
}
ASSUMPTIONS = ['coasts and borders come from files that are not there, and are left out', 'y of the images runs from north to south']
FIELDS = ['flash_extent_density', 'flash_centroid_density', 'total_energy', 'average_flash_area', 'group_extent_density', 'group_centroid_density', 'average_group_area', 'minimum_flash_area']
TIMES = [dt.datetime(2018, 7, 2, 4, 33), dt.datetime(2018, 7, 2, 4, 34), dt.datetime(2018, 12, 31, 23, 59, 40)]
# x of the west, y of the north, spacing, columns, rows, satellite
GRIDS = [(-0.032, 0.084, 1e-3, 5, 4, -75.0), (0.05, -0.06, 4e-4, 4, 5, -137.0), (-0.006, 0.006, 3e-3, 5, 5, 140.7), (-0.07, 0.1, 56e-6, 3, 2, -75.2)]
COLOURS = [{}, dict(axes_facecolor=(.2, .3, .1)), dict(axes_facecolor=(1., 1., 1.), map_color=(.1, .1, .4))]
LAYOUTS = {1: [(1, 1), (2, 3), (1, 2)], 2: [(1, 2), (2, 1), (2, 3)]}
# scales that are shown (smallest and largest value)
SCALES = dict(flash_extent_density=(1, 50), flash_centroid_density=(1, 10), group_extent_density=(1, 500), group_centroid_density=(1, 10), total_energy=(1e-8, 1e-3),
              average_flash_area=(50, 5000), average_group_area=(50, 5000), minimum_flash_area=(50, 5000))


def cases(tier):
    th = tier == 'thorough'
    n = 0
    for k in (1, 2, 3) if th else (1, 2):
        for pick in itertools.permutations(range(8), k):
            for t, g, c in itertools.product(range(3), range(4), range(3)) if th and k < 3 else [(n % 3, (n // 3) % 4, n % 3)]:
                yield dict(kind='panels', fields=pick, time=t, grid=g, colour=c, layout=LAYOUTS.get(k, [(2, 3)])[n % len(LAYOUTS.get(k, [1]))], fig=n % 3, empty=n % 4)
                n += 1
    for k in list(range(3, 9)) + [12]:
        for start in range(8):
            yield dict(kind='panels', fields=[(start + i) % 8 for i in range(k)], time=n % 3, grid=n % 4, colour=n % 3, layout=(2, 3) if k < 7 else (3, 4), fig=n % 3, empty=n % 4)
            n += 1


    # images put together as documented, and the ones that a series of files gives
    for k, (minutes, grid) in enumerate(itertools.product((1, 2, 5), range(4))):
        for start in (0, 3, 6) if th else [k % 8]:
            yield dict(kind='aggregated', fields=[start, (start + 3) % 8, (start + 5) % 8], time=0, grid=grid, colour=k % 3, layout=(2, 3), fig=0, empty=k % 4, minutes=minutes)
    for k, late in enumerate(('1s', '-1s', '30s', '1d', '-1d', '10us')):
        yield dict(kind='absent', late=late, grid=k % 4, empty=k % 4)


def series(grid, empty):
    x0, y0, d, nx, ny, sat = GRIDS[grid]
    k = np.arange(3 * ny * nx).reshape(3, ny, nx)
    data = {}
    for i, f in enumerate(FIELDS):
        lo, hi = SCALES[f]
        frac = ((k * 7 + i * 11) % (3 * nx * ny) + .5) / (3 * nx * ny)
        v = lo * (hi / lo) ** frac
        if empty == 1:
            v[(k + i) % 5 == 0] = np.nan
        elif empty == 2:
            v[(k + i) % 4 == 0] = 0
            v[(k + i) % 7 == 0] = hi * 3.
            v[(k + i) % 6 == 1] = lo / 3.
        elif empty == 3:
            v[1 + i % 2:] = np.nan
        data[f] = (('time', 'y', 'x'), v.astype('f4'))
    ds = xr.Dataset(data, coords=dict(time=np.array(TIMES, 'M8[ns]'), x=x0 + d * np.arange(nx), y=y0 - d * np.arange(ny)))
    ds['goes_imager_projection'] = xr.DataArray(np.int32(0), attrs=dict(perspective_point_height=35786023., semi_major_axis=6378137., semi_minor_axis=6356752.31414,
                                                                        longitude_of_projection_origin=sat, sweep_angle_axis='x', grid_mapping_name='geostationary'))
    return ds


def whole(case):
    """(images, the times they have)"""
    ds = series(case['grid'], case['empty'])
    if case['kind'] != 'aggregated':
        return ds, TIMES
    p = ds.goes_imager_projection
    ds['goes_imager_projection'] = xr.DataArray(np.zeros(3, 'i4'), dims='time', attrs=p.attrs)
    ds = aggregate(ds.isel(time=[0, 1]), case['minutes'])
    ds['time_bins'] = [v.left for v in ds.time_bins.values]
    ds = ds.rename({'time_bins': 'time'})
    return ds, [t.astype('M8[us]').item() for t in ds.time.values]


def absent(case, trace):
    """a time that no image has is not drawn"""
    ds = series(case['grid'], case['empty'])
    for t in TIMES:
        t = t + pd.Timedelta(case['late']).to_pytimedelta()
        try:
            plot_glm_grid(plt.figure(), ds, t, FIELDS[:2])
        except Exception as e:
            trace.step('refused', type(e).__name__)
            trace.agree()
            continue
        require(False, 'an image is drawn for %s, there are only %s', t, TIMES)


def check(case, trace):
    keep = GeoAxes.coastlines, GeoAxes.add_feature
    GeoAxes.coastlines = GeoAxes.add_feature = lambda *a, **k: None
    try:
        (absent if case['kind'] == 'absent' else panels)(case, trace)
    finally:
        GeoAxes.coastlines, GeoAxes.add_feature = keep
        plt.close('all')


def panels(case, trace):
    ds, times = whole(case)
    before = digest(ds)
    fields = [FIELDS[i] for i in case['fields']]
    kw = COLOURS[case['colour']]
    face = kw.get('axes_facecolor', (0., 0., 0.))
    t = times[case['time']]
    fig = plt.figure(figsize=(20, 12))
    if case['fig'] == 1:
        fig.add_subplot(221).plot([1, 2], [3, 4])
        plot_glm_grid(fig, ds, times[(case['time'] + 1) % 3], [FIELDS[5], FIELDS[2]])
    elif case['fig'] == 2:
        other = plt.figure()
        other.add_subplot(111).plot([1, 2], [3, 4])
    layout = tuple(case['layout'])
    if layout == (2, 3) and len(fields) > 2:
        maps, bars = plot_glm_grid(fig, ds, t, fields, **kw)
    else:
        maps, bars = plot_glm_grid(fig, ds, t, fields, subplots=layout, **kw)
    require(len(maps) == len(fields) and len(bars) == len(fields), '%d panels and %d colour bars for %d fields', len(maps), len(bars), len(fields))
    require([a for a in fig.axes if isinstance(a, GeoAxes)] == list(maps), 'the panels are not those of the figure')
    require(len(fig.axes) == 2 * len(fields), '%d axes left in the figure', len(fig.axes))
    if case['fig'] == 2:
        require(len(other.axes) == 1, 'another figure was drawn on')
    words = []
    for n, (ax, f) in enumerate(zip(maps, fields)):
        texts = [s.get_text() for s in ax.texts]
        label = ' '.join(texts)
        require(t.isoformat().replace('T', ' ') in label, 'panel of %s does not name the time %s: %r', f, t, label)
        require(f.replace('_', ' ') in label.lower(), 'panel of %s is labelled %r', f, label)
        require('abcdefghijkl'[n] in [s.strip() for s in texts], 'panel %d has no letter: %r', n, texts)
        m = re.search(r'max\s+([-+.\deE]+)\)', label)
        top = float(np.nan_to_num(ds[f].sel(time=t).values).max())
        require(m and abs(float(m.group(1)) - top) <= (.06 * top if f == 'total_energy' else .501), 'panel of %s states a maximum of %s, it is %s', f, m and m.group(1), top)
        words.append(label)
        for s in ax.texts:
            s.set_visible(False)
        ax.spines['geo'].set_visible(False)
    lo_hi = [(b.vmin, b.vmax) for b in bars]
    for f, lh in zip(fields, lo_hi):
        require(np.allclose(lh, SCALES[f], rtol=1e-6), 'colour bar of %s goes from %s to %s', f, *lh)
    boxes = [b.ax.get_position() for b in bars]
    for b in bars:
        b.ax.set_visible(False)
    fig.canvas.draw()
    rgb = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(int)
    x0, y0, d, nx, ny, sat = GRIDS[case['grid']]
    h = nav.H
    place(rgb, maps, bars, boxes, fields, ds, t, face, GRIDS[case['grid']], trace)
    # limits of all panels go together
    for a in maps:
        (xa, xb), (ya, yb) = a.get_xlim(), a.get_ylim()
        require(abs(xa - x0 * h) < .51 * d * h and abs(xb - (x0 + (nx - 1) * d) * h) < .51 * d * h and abs(yb - y0 * h) < .51 * d * h and abs(ya - (y0 - (ny - 1) * d) * h) < .51 * d * h, 'limits %s, %s', a.get_xlim(), a.get_ylim())
    maps[-1].set_xlim(x0 * h + .3 * d * h, x0 * h + 1.4 * d * h)
    maps[0].set_ylim(y0 * h - .9 * d * h, y0 * h - .2 * d * h)
    require(all(np.allclose(a.get_xlim(), maps[-1].get_xlim()) and np.allclose(a.get_ylim(), maps[0].get_ylim()) for a in maps), 'the panels do not share their limits')
    # the projection is that of the data
    for a in maps:
        for lon, lat in ((sat + 12., 23.), (sat - 31., -38.), (sat + 3., 51.)):
            got = a.projection.transform_point(lon, lat, a.projection.as_geodetic())
            want = nav.fixed_grid_earth(lon, lat, sat)
            require(abs(got[0] - want[0] * h) < 30 and abs(got[1] - want[1] * h) < 30, 'the map has %s, %s at %s m, expected %s', lon, lat, got, [w * h for w in want])
            trace.agree()
    require(digest(ds) == before, 'the images were changed')
    trace.step(case['layout'], words, lo_hi)


def place(rgb, maps, bars, boxes, fields, ds, t, face, grid, trace):
    """colour at the place of each cell, as drawn"""
    x0, y0, d, nx, ny, sat = grid
    h = nav.H
    high = rgb.shape[0]
    for ax, bar, box, f in zip(maps, bars, boxes, fields):
        pos = ax.get_position()
        require(pos.x0 - .02 <= box.x0 and box.x1 <= pos.x1 + .02 and pos.y0 - .02 <= box.y0 and box.y1 <= pos.y1 + .02, 'the colour bar of %s is at %s, the panel at %s', f, box, pos)
        v = ds[f].sel(time=t).values
        seen = []
        for j, i in itertools.product(range(ny), range(nx)):
            # inside the cell, whether the picture ends at the centres or at the borders of the outer cells
            px = min(max(i, .15), nx - 1.15)
            py = min(max(j, .15), ny - 1.15)
            u, w = ax.transData.transform(((x0 + px * d) * h, (y0 - py * d) * h))
            got = rgb[int(high - w), int(u)]
            val = v[j, i]
            if np.isnan(val) or val == 0:
                want = np.array([face]) * 255
            else:
                # or the next in the table of colours
                want = np.array([bar.cmap(bar.norm(float(val)) + e)[:3] for e in (0, -.003, .003)]) * 255
            require(np.abs(got - want).max(axis=1).min() <= 1.5, '%s at column %d, row %d is drawn as %s, expected %s (value %s)', f, i, j, got.tolist(), want[0].round().tolist(), float(val))
            seen.append(got.tolist())
            trace.agree()
        trace.step(f, seen)
