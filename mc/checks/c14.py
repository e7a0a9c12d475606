"""C14: names, times and metadata."""
import calendar
import datetime as dt
import glob
import itertools
import os
import re
import time

import numpy as np
import xarray as xr

from mc import core
from mc.core import require
from mc.checks import c13
from glmtools.io.glm import parse_glm_filename, parse_glm_filename_time
from glmtools.io.imagery import get_glm_global_attrs, get_goes_imager_proj, get_goes_imager_subpoint_vars, infer_scene_from_dataset, new_goes_imagery_dataset, write_goes_imagery

BOUNDS = {
    'quick': 'times of every day of 3 years (common, leap, year 2000) at 6 times of day and every tenth of a second; '
             'scenes for 8 east-west by 8 north-south spans at 5 spacings; 26 spacings; 5 platforms; 9 path templates x 3 frame layouts x 4 starts; 4 time zones for the creation time',
    'thorough': 'as quick with 12 years, every hour, 4 further starts and all templates for all platforms',
}
ASSUMPTIONS = ['spacing 56 microradians or more for files', 'start and end on a whole tenth of a second']
SCENES = {'FULL': ('F', 'Full Disk'), 'CONUS': ('C', 'CONUS'), 'MESO1': ('M1', 'Mesoscale'), 'MESO2': ('M2', 'Mesoscale'), 'OTHER': ('M1', 'Custom')}
PLATFORMS = [('G16', 'GOES-East', 'FM1', -75.0), ('G17', 'GOES-West', 'GLM-2', -137.0), ('G16', 'GOES-Test', 'GLM-1', -89.5), ('G18', 'GOES-West', 'GLM-3', -136.97), ('G19', 'GOES-East', 'GLM-4', -75.234)]
NAME = re.compile(r'^OR_GLM-L2-GLM(F|C|M1|M2)-M3_(\w+)_s(\d{14})_e(\d{14})_c(\d{14})\.nc$')
ZONES = ['UTC', 'America/Chicago', 'XYZ+11:30', 'ABC-9']
STARTS = [dt.datetime(2018, 7, 2, 4, 33), dt.datetime(2020, 2, 29, 23, 59), dt.datetime(2019, 12, 31, 23, 59, 30), dt.datetime(2020, 12, 31, 12, 0, 0, 500000),
          dt.datetime(2021, 1, 1), dt.datetime(2016, 12, 31, 23, 58), dt.datetime(2019, 3, 10, 2, 30), dt.datetime(2022, 9, 9, 9, 9, 9)]
TEMPLATES = ['{dataset_name}', './{dataset_name}', 'out/{dataset_name}', '{scratch}/deep/er/{dataset_name}', '{start_time:%Y/%b/%d}/{dataset_name}', 'x/GLM_{start_time:%Y%m%d_%H%M%S_%f}.nc',
             'y/{end_time:%j}/{start_time:%Y%j%H%M%S%f}_{end_time:%Y%j%H%M%S%f}.nc', 'plain_{start_time:%H%M%S%f}.nc', 'there/{dataset_name}']


def cases(tier):
    th = tier == 'thorough'
    for year in range(2012, 2024) if th else (2019, 2020, 2000):
        for month in range(1, 13):
            yield dict(kind='parse', year=year, month=month, th=th)
            yield dict(kind='attrs', year=year, month=month)
    yield dict(kind='scene')
    yield dict(kind='resolution')
    for p in range(len(PLATFORMS)):
        yield dict(kind='proj', platform=p)
    for s in range(8 if th else 4):
        for n, sec in ((1, 60.0), (2, 20.0), (3, .5)):
            for t in range(len(TEMPLATES)):
                for p in range(len(PLATFORMS)) if th else [(s + t) % len(PLATFORMS)]:
                    yield dict(kind='file', start=s, n=n, sec=sec, template=t, platform=p)
    for z in ZONES:
        yield dict(kind='zone', zone=z)
    for dx, dy in itertools.product((56, 112, 140, 280, 500), repeat=2):
        yield dict(kind='units', dx=dx, dy=dy)


def check(case, trace):
    globals()['check_' + case['kind']](case, trace)


def digits(t):
    """day of year by hand"""
    doy = t.day + sum(calendar.monthrange(t.year, m)[1] for m in range(1, t.month))
    return '%04d%03d%02d%02d%02d%d' % (t.year, doy, t.hour, t.minute, t.second, t.microsecond // 100000)


def instant(s):
    """the instant of a name's digits, by hand"""
    t = dt.datetime(int(s[:4]), 1, 1) + dt.timedelta(days=int(s[4:7]) - 1, hours=int(s[7:9]), minutes=int(s[9:11]), seconds=int(s[11:13]))
    return t + dt.timedelta(microseconds=100000 * int(s[13]))


def check_parse(case, trace):
    y, m = case['year'], case['month']
    for d in range(1, calendar.monthrange(y, m)[1] + 1):
        for h, mi, s in [(0, 0, 0), (4, 33, 20), (11, 59, 59), (12, 0, 1), (19, 7, 40), (23, 59, 59)] + [(h, 30, 9) for h in range(24 if case['th'] else 0)]:
            for tenth in range(10):
                t = dt.datetime(y, m, d, h, mi, s, tenth * 100000)
                for letter in 'sec':
                    require(parse_glm_filename_time(letter + digits(t)) == t, '%s parsed as %s', digits(t), parse_glm_filename_time(letter + digits(t)))
                    trace.agree()
            e, c = t + dt.timedelta(seconds=19.9), t + dt.timedelta(seconds=31.4)
            for env, alg, plat in (('OR', 'GLM-L2-LCFA', 'G16'), ('OR', 'GLM-L2-GLMC-M3', 'G17'), ('IT', 'GLM-L2-LCFA', 'G19')):
                got = parse_glm_filename('%s_%s_%s_s%s_e%s_c%s.nc' % (env, alg, plat, digits(t), digits(e), digits(c)))
                require(tuple(got) == (env, alg, plat, t, e, c), 'name parsed as %s', got)
                trace.agree()
        trace.step(y, m, d)


def split(name):
    m = NAME.match(name)
    require(m, 'name %r is not a product name', name)
    return m.groups()


def check_attrs(case, trace):
    y, m = case['year'], case['month']
    n = calendar.monthrange(y, m)[1]
    scenes = sorted(SCENES)
    for d in range(1, n + 1):
        for k, (h, mi, s, tenth, dur) in enumerate([(0, 0, 0, 0, 60), (23, 59, 0, 0, 60), (12, 30, 59, 5, .5), (23, 59, 59, 9, .1), (6, 7, 8, 3, 1200)]):
            t = dt.datetime(y, m, d, h, mi, s, tenth * 100000)
            e = t + dt.timedelta(seconds=dur)
            sc = scenes[(d + k) % 5]
            plat, slot, inst, nadir = PLATFORMS[(d + k) % 5]
            a = get_glm_global_attrs(t, e, plat, slot, inst, sc, '2km at nadir', 'ABI Mode 3', 'DE', 'Postprocessed', 'TTU')
            require(a['time_coverage_start'].startswith(t.isoformat()) and a['time_coverage_end'].startswith(e.isoformat()), 'coverage %s to %s of %s', a['time_coverage_start'], a['time_coverage_end'], t)
            letter, p, s_, e_, c_ = split(a['dataset_name'])
            require(letter == SCENES[sc][0] and p == plat, 'name %s for scene %s of %s', a['dataset_name'], sc, plat)
            require(instant(s_) == t and instant(e_) == e, 'name %s for %s to %s', a['dataset_name'], t, e)
            require(tuple(parse_glm_filename(a['dataset_name']))[2:5] == (plat, t, e), 'name %s does not read back', a['dataset_name'])
            made = np.datetime64(a['date_created'].rstrip('Z'))
            require(np.timedelta64(0) <= made - np.datetime64(instant(c_)) < np.timedelta64(100, 'ms'), 'creation time %s in the name, %s in the data', c_, made)
            require((a['platform_ID'], a['orbital_slot'], a['instrument_ID'], a['scene_id'], a['spatial_resolution'], a['timeline_id']) ==
                    (plat, slot, inst, SCENES[sc][1], '2km at nadir', 'ABI Mode 3'), 'attributes')
            require((a['production_environment'], a['production_data_source'], a['production_site']) == ('DE', 'Postprocessed', 'TTU'), 'production attributes')
            trace.agree(5)
            trace.step(t, sc, plat)


def line(span, d):
    n = int(round(span / d)) + 1
    return (np.arange(n) - (n - 1) / 2.0) * d


FULL, CE, CN, ME, PAC = .303744, .14, .084, .028, .172732


def check_scene(case, trace):
    ew = [FULL, CE, ME, PAC, CE * .985, FULL * 1.015, .06, .2]
    ns = [FULL, CN, ME, PAC, CN * 1.015, FULL * .985, .05, .2]
    for d in (56e-6, 112e-6, 140e-6, 28e-6, 224e-6):
        for a, b in itertools.product(range(len(ew)), range(len(ns))):
            for wob in (0, .005, -.005):
                if wob and (a > 3 or b > 3):
                    continue
                x, y = line(ew[a] * (1 + wob), d) + .013, line(ns[b] * (1 + wob), d)[::-1] - .02
                scene, res = infer_scene_from_dataset(x, y)
                want = {(0, 0): 'FULL', (1, 1): 'CONUS', (2, 2): 'MESO1'}.get((a, b), 'CONUS' if a == 3 else 'OTHER')
                require(scene == want, 'span %.4f by %.4f is scene %s, expected %s', np.ptp(x), np.ptp(y), scene, want)
                trace.agree()
            trace.step(d, a, b, scene)


def check_resolution(case, trace):
    known = {14: '0.5km', 28: '1km', 56: '2km', 112: '4km', 224: '8km', 280: '10km', 2800: '100km'}
    for d in (14, 28, 56, 84, 112, 140, 168, 224, 280, 500, 560, 2800):
        for near in (0.95, 1.05):
            if d in known:
                res = infer_scene_from_dataset(np.arange(7) * d * near * 1e-6, np.arange(5) * -56e-6)[1]
                m = re.match(r'(\d+)microradian at nadir$', res)
                require(m and abs(int(m.group(1)) - d * near) <= 0.51, 'spacing %s is %r', d * near, res)
                trace.agree()
        for sgn, other in itertools.product((1, -1), (56, 84)):
            for wob in (0, 1e-3, -1e-3) if d in known else (0,):
                x, y = np.arange(7) * d * 1e-6 * (1 + wob) * sgn, np.arange(5) * -other * 1e-6
                scene, res = infer_scene_from_dataset(x, y)
                want = (known[d] if d in known else '%dmicroradian' % d) + ' at nadir'
                require(res == want, 'spacing %s is %r, expected %r', d, res, want)
                trace.agree()
        trace.step(d, res)


def judge_proj(d, nadir, what):
    p = d['goes_imager_projection'].attrs
    require(p['grid_mapping_name'] == 'geostationary' and p['sweep_angle_axis'] == 'x', '%s: projection', what)
    require(abs(p['longitude_of_projection_origin'] - nadir) < 1e-6 and abs(p['latitude_of_projection_origin']) < 1e-9, '%s: projection origin %s', what, p['longitude_of_projection_origin'])
    require(abs(p['perspective_point_height'] - 35786023.) < 1 and abs(p['semi_major_axis'] - 6378137.) < 1e-3 and abs(p['semi_minor_axis'] - 6356752.31414) < 1e-3, '%s: ellipsoid', what)
    require(abs(p['inverse_flattening'] - 298.257222101) < 5e-7, '%s: flattening', what)
    require((np.asarray(d['DQF'].values, 'f8') == 0).all() and d['DQF'].shape == (d.y.size, d.x.size), '%s: quality flags', what)
    require(abs(float(d['nominal_satellite_subpoint_lon']) - nadir) < 1e-6 and abs(float(d['nominal_satellite_subpoint_lat'])) < 1e-9, '%s: subpoint', what)
    require(d.x.attrs['units'] == 'rad' and d.y.attrs['units'] == 'rad' and d.x.attrs['standard_name'] == 'projection_x_coordinate' and d.y.attrs['standard_name'] == 'projection_y_coordinate', '%s: coordinate attributes', what)


def check_proj(case, trace):
    plat, slot, inst, nadir = PLATFORMS[case['platform']]
    for lon in (nadir, 0.0, 140.7, -179.9, 180.0):
        p = get_goes_imager_proj(lon)
        require(p.attrs['longitude_of_projection_origin'] == lon, 'projection origin')
        a, b = get_goes_imager_subpoint_vars(lon)
        require(float(a) == lon and float(b) == 0 and a.name.endswith('lon') and b.name.endswith('lat'), 'subpoint variables')
        d, scene, res = new_goes_imagery_dataset(np.arange(5) * 56e-6, -np.arange(4) * 56e-6, lon)
        judge_proj(d, lon, 'new dataset')
        require(scene == 'OTHER' and res == '2km at nadir', 'scene %s, resolution %s', scene, res)
        trace.step(lon)
        trace.agree(4)


def gridder(start, n, sec, nadir, attrs):
    from glmtools.grid.make_grids import GLMlutGridder
    from mc import gridding as M
    d = 56e-6
    x0, y0 = -0.151844 + 56e-6 * 2000 - d / 2, 0.151844 - 56e-6 * 2300 - d / 2
    g = GLMlutGridder(start, start + dt.timedelta(seconds=n * sec), **M.gridder_kwargs((x0, x0 + 6 * d), (y0, y0 + 5 * d), d, d, sec, dt.datetime(start.year, start.month, start.day), nadir))
    g.first_file_attrs = attrs
    for grid in g.outgrids:
        for t in range(n):
            grid[1 + t, 2, t] = 3 + t
    return g


def check_file(case, trace):
    start, n, sec = STARTS[case['start']], case['n'], case['sec']
    plat, slot, inst, nadir = PLATFORMS[case['platform']]
    # other attributes of the input must not leak into the image
    attrs = dict(platform_ID=plat, orbital_slot=slot, instrument_ID=inst, dataset_name='OR_GLM-L2-LCFA_input.nc', time_coverage_start='1999-01-01T00:00:00.0Z', title='input')
    g = gridder(start, n, sec, nadir, attrs)
    os.makedirs('there')
    tmpl = TEMPLATES[case['template']].replace('{scratch}', core.scratch())
    before = dt.datetime.utcnow()
    files = write_goes_imagery(g, outpath=tmpl)
    after = dt.datetime.utcnow()
    require(len(files) == n, '%d files', len(files))
    require(len(set(files)) == n, 'files replaced one another')
    on_disk = {os.path.abspath(f) for f in glob.glob('**/*', recursive=True) if os.path.isfile(f)}
    require({os.path.abspath(f) for f in files} == on_disk, 'files on disk %s, reported %s', on_disk, files)
    for k, f in enumerate(files):
        t, e = start + dt.timedelta(seconds=k * sec), start + dt.timedelta(seconds=(k + 1) * sec)
        with xr.open_dataset(f) as d:
            name = d.attrs['dataset_name']
            want = tmpl.format(start_time=t, end_time=e, dataset_name=name)
            require(os.path.abspath(want) == os.path.abspath(f), 'written to %s, expected %s', f, want)
            letter, p, s_, e_, c_ = split(name)
            require((letter, p) == ('M1', plat) and instant(s_) == t and instant(e_) == e, 'name %s for %s to %s of %s', name, t, e, plat)
            require(before - dt.timedelta(seconds=.1) <= instant(c_) <= after, 'created %s in the name, between %s and %s in fact', c_, before, after)
            require((d.attrs['platform_ID'], d.attrs['orbital_slot'], d.attrs['instrument_ID'], d.attrs['scene_id'], d.attrs['spatial_resolution']) == (plat, slot, inst, 'Custom', '2km at nadir'), 'attributes')
            require(d.attrs['time_coverage_start'].startswith(t.isoformat()) and d.attrs['time_coverage_end'].startswith(e.isoformat()), 'coverage of frame %d', k)
            judge_proj(d, nadir, 'file')
            for v in c13.STEP:
                require(d[v].attrs.get('grid_mapping', d[v].encoding.get('grid_mapping')) == 'goes_imager_projection', '%s does not name the projection', v)
                require(d[v].attrs['standard_name'] == v, 'name of %s', v)
                # the frame's own data
                col = np.argwhere(~np.isnan(d[v].transpose('x', 'y').values))
                require(len(col) == 1 and col[0][0] == 1 + k, 'frame %d holds other data', k)
            trace.agree(12)
            trace.step(name[:-20], case['template'], plat)


def check_zone(case, trace):
    old = os.environ.get('TZ')
    try:
        os.environ['TZ'] = case['zone']
        time.tzset()
        t = dt.datetime(2020, 3, 1, 1, 2, 3)
        t0 = time.time()
        a = get_glm_global_attrs(t, t + dt.timedelta(seconds=60), 'G16', 'GOES-East', 'FM1', 'CONUS', '2km at nadir', 'ABI Mode 3', 'DE', 'Postprocessed', 'TTU')
        t1 = time.time()
        lo, hi = (dt.datetime(1970, 1, 1) + dt.timedelta(seconds=v) for v in (t0 - .2, t1 + .01))
        c = instant(split(a['dataset_name'])[4])
        require(lo <= c <= hi, 'in zone %s the creation time in the name is %s, really %s', case['zone'], c, hi)
        made = dt.datetime.fromisoformat(a['date_created'].rstrip('Z'))
        require(a['date_created'].endswith('Z') and lo <= made <= hi, 'in zone %s date_created is %s, really %s', case['zone'], a['date_created'], hi)
        trace.step(case['zone'])
        trace.agree(2)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


def check_units(case, trace):
    for sec in (20.0, 60.0, 300.0):
        from glmtools.grid.make_grids import GLMlutGridder
        from mc import gridding as M
        dx, dy = case['dx'] * 1e-6, case['dy'] * 1e-6
        g = GLMlutGridder(STARTS[0], STARTS[0] + dt.timedelta(seconds=sec), **M.gridder_kwargs((0, 5 * dx), (0, 4 * dy), dx, dy, sec, STARTS[0], -75.0))
        units = dict(zip(g.field_names, g.field_units))
        for v in ('flash_extent_density', 'flash_centroid_density', 'group_extent_density', 'group_centroid_density'):
            nums = [float(q) for q in re.findall(r'(?<![\^\d.])\d+(?:\.\d+)?', units[v])]
            require(len(nums) == 2 and nums[0] == case['dx'] * case['dy'] and abs(nums[1] - sec / 60) <= .051, 'units of %s are %r for cells of %d by %d microradians and %s s', v, units[v], case['dx'], case['dy'], sec)
            trace.agree()
        trace.step(case['dx'], case['dy'], sec, units['total_energy'])
