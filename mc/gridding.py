"""Reference model of gridding and helpers to drive the real gridding code."""
import datetime as dt
import math
import os
import pickle

import numpy as np
from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
from shapely.geometry import Polygon, box

from mc import core, lcfa, nav

LUT = os.path.join(core.REPO, 'glmtools', 'io', 'G16_corner_lut_fixedgrid.pickle')
LOC = 28e-6         # size of an event location
FIELDS = ('flash_extent_density', 'flash_centroid_density', 'total_flash_area', 'total_energy',
          'group_extent_density', 'group_centroid_density', 'total_group_area', 'minimum_flash_area')
NAMES = ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'total_energy',
         'group_extent_density', 'group_centroid_density', 'average_group_area', 'minimum_flash_area')

_lut = None


def corners(x, y):
    """Corner offsets (4, 2) in radians at x, y from the shipped table."""
    global _lut
    if _lut is None:
        with open(LUT, 'rb') as f:
            X, Y, C = pickle.load(f)
        pts = (np.asarray(X, 'f8').ravel() * 1e-6, np.asarray(Y, 'f8').ravel() * 1e-6)
        vals = np.asarray(C, 'f8').reshape(-1, 8) * 1e-6
        _lut = LinearNDInterpolator(pts, vals), NearestNDInterpolator(pts, vals)
    v = _lut[0](x, y).reshape(4, 2)
    if np.isnan(v).any():
        v = _lut[1](x, y).reshape(4, 2)
    return v


def at(x, y, nadir, rev=0):
    lon, lat = nav.lon_lat(x, y, nadir, rev)
    return dict(lon=lon, lat=lat)


def positions(d, rev):
    """Filled description with the fixed grid position 'x', 'y' each row really has after storage."""
    d = lcfa.filled(d)
    for lvl in 'FGE':
        for r in d[lvl]:
            if lvl == 'E':
                lon, lat = lcfa.event_lonlat([r['lat']], [r['lon']], d['nadir'])
                lon, lat = float(lon[0]), float(lat[0])
            else:
                lon, lat = float(np.float32(r['lon'])), float(np.float32(r['lat']))
            r['x'], r['y'] = nav.fixed_grid(lon, lat, d['nadir'], rev)
    return d


def location(r):
    return (int((r['x'] + .31) / LOC), int((r['y'] + .31) / LOC))


def edge_distance(v, edges):
    return min(abs(v - e) for e in edges)


def model(files, xe, ye, te, rev=0, keep=None, chunks=None):
    """Expected fields, arrays (nx, ny, nt); sliver marks cells that are only just touched.

    keep: set of flash ids used, per file; chunks: lists of flash ids processed together."""
    nx, ny, nt = len(xe) - 1, len(ye) - 1, len(te) - 1
    out = {f: np.zeros((nx, ny, nt)) for f in FIELDS}
    sliver = np.zeros((nx, ny, nt), dtype=bool)
    amb = np.zeros((nx, ny, nt), dtype=bool)

    def frame(t):
        for i in range(nt):
            if te[i] <= t < te[i + 1]:
                return i
        return None

    def cell(v, e):
        if v < e[0] or v >= e[-1]:
            return None
        return int(np.searchsorted(e, v, 'right')) - 1

    for n, d in enumerate(files):
        d = positions(d, rev)
        t0 = lcfa.when(d['start'])
        sel = None if keep is None else keep[n]
        flid = {g['id']: g['fl'] for g in d['G']}
        farea = {f['id']: lcfa.float_area(f['area']) for f in d['F']}
        garea = {g['id']: lcfa.float_area(g['area']) for g in d['G']}
        used = [f['id'] for f in d['F'] if sel is None or f['id'] in sel]
        parts = [used] if chunks is None else [[i for i in c if i in used] for c in chunks[n]]
        for part in parts:
            buckets = {}
            for e in d['E']:
                if flid[e['gr']] in part:
                    buckets.setdefault(location(e), []).append(e)
            fi = frame(t0)
            for ev in buckets.values() if fi is not None else ():
                mx, my = sum(e['x'] for e in ev) / len(ev), sum(e['y'] for e in ev) / len(ev)
                quad = Polygon(corners(mx, my) + (mx, my))
                gs = {e['gr'] for e in ev}
                fs = {flid[g] for g in gs}
                en = sum(lcfa.float_energy(e['energy'], d) * 1e9 for e in ev)
                x0, y0, x1, y1 = quad.bounds
                for i in range(max(0, np.searchsorted(xe, x0) - 2), min(nx, np.searchsorted(xe, x1) + 1)):
                    for j in range(max(0, np.searchsorted(ye, y0) - 2), min(ny, np.searchsorted(ye, y1) + 1)):
                        c = box(xe[i], ye[j], xe[i + 1], ye[j + 1])
                        a = quad.intersection(c).area
                        fr = a / c.area
                        if fr < 2e-4:
                            if quad.distance(c) < 1e-8:
                                sliver[i, j, fi] = True
                            continue
                        k = (i, j, fi)
                        out['total_energy'][k] += en * a / quad.area
                        out['flash_extent_density'][k] += len(fs) * fr
                        out['group_extent_density'][k] += len(gs) * fr
                        out['total_flash_area'][k] += sum(farea[f] for f in fs) * fr
                        out['total_group_area'][k] += sum(garea[g] for g in gs) * fr
                        m = min(farea[f] for f in fs)
                        old = out['minimum_flash_area'][k]
                        out['minimum_flash_area'][k] = m if old == 0 else min(m, old)
            for rows, name in ((d['F'], 'flash_centroid_density'), (d['G'], 'group_centroid_density')):
                for r in rows:
                    if (r['id'] if name[0] == 'f' else flid[r['id']]) not in part:
                        continue
                    ti = frame(t0 + dt.timedelta(milliseconds=r['t']))
                    if ti is None:
                        continue
                    if edge_distance(r['x'], xe) < 3e-8 or edge_distance(r['y'], ye) < 3e-8:
                        amb[:, :, ti] = True
                        continue
                    i, j = cell(r['x'], xe), cell(r['y'], ye)
                    if i is not None and j is not None:
                        out[name][i, j, ti] += 1
    return out, sliver, amb


def compare(got, want, sliver, amb, require, what, spacing=None):
    """got: dict like FIELDS"""
    # stored positions are good to some 4e-8 radians, which matters for small cells
    slack = 1.0 if spacing is None else max(1.0, 8e-8 / spacing / 1e-3)
    n = 0
    for f in FIELDS:
        g, w = np.asarray(got[f], 'f8'), want[f]
        require(g.shape == w.shape, '%s: %s has shape %s, expected %s', what, f, g.shape, w.shape)
        require(np.isfinite(g).all(), '%s: %s is not finite', what, f)
        if f.endswith('centroid_density'):
            bad = (np.abs(g - w) > 1e-6) & ~amb
        elif f == 'minimum_flash_area':
            bad = (np.abs(g - w) > 1e-4 * w + 1e-6) & ~sliver
        else:
            bad = np.abs(g - w) > 2e-3 * w + TOL[f] * slack
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0])
            require(False, '%s: %s in cell x %d, y %d, frame %d is %s, expected %s', what, f, k[0], k[1], k[2], float(g[k]), float(w[k]))
        n += g.size
    return n


TOL = {'flash_extent_density': 1e-3, 'group_extent_density': 1e-3, 'total_flash_area': 5.0, 'total_group_area': 5.0, 'total_energy': 1e-7}


def gridder_kwargs(xb, yb, dx, dy, frame, base, nadir):
    from lmatools.grid.fixed import get_GOESR_coordsys
    geofix, _ = get_GOESR_coordsys(sat_lon_nadir=nadir)
    return dict(proj_name='geos', base_date=base, do_3d=False, dx=dx, dy=dy, frame_interval=float(frame), x_bnd=np.array(xb), y_bnd=np.array(yb),
                ctr_lat=0.0, ctr_lon=nadir, spatial_scale_factor=1.0, energy_grids=('total_energy',), pixel_coords=geofix, event_grid_area_fraction_key='mesh_frac')


def grids_of(gridder):
    g = dict(zip(gridder.field_names, gridder.outgrids))
    return {f: g[n] for f, n in zip(FIELDS, NAMES)}


def grid_files(paths, t0, t1, xb, yb, dx, dy, frame, nadir, outpath, rev=0, **kw):
    """The user-level entry: grid files and write images, returning the list of what it returns."""
    from glmtools.grid.make_grids import grid_GLM_flashes
    k = gridder_kwargs(xb, yb, dx, dy, frame, dt.datetime(t0.year, t0.month, t0.day), nadir)
    k.pop('event_grid_area_fraction_key')
    k.pop('do_3d')
    k.update(outpath=outpath, output_writer=None, output_filename_prefix='GLM', output_kwargs={'scale_and_offset': False},
             fixed_grid=True, nadir_lon=nadir, clip_events=True, ellipse_rev=rev)
    k.update(kw)
    return grid_GLM_flashes(paths, t0, t1, **k)
