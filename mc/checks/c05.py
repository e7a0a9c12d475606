"""C05: units and sentinel values are normalised on open."""
import itertools

import numpy as np
import xarray as xr

from mc import lcfa
from mc.core import require, scratch, deviations
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'all departures up to 2 from a plain file: units of flash and of group areas, 6 area code patterns, 7 energy code patterns, 2 energy offsets, 7 product dates around the affected weeks, '
             'frame times and unsigned marker present or not, 3 time code patterns, each switch off, broken tree, data in memory or on disk; energies of one level in other units',
    'thorough': 'all departures up to 4 of the same (8 energy scale/offset pairs)',
}
DEFAULT = dict(kind='open', fa='km2', ga='km2', areas='plain', energies='plain', eo=0, date='2018-07-02T04:33:00', frame=False, marked=False,
               times='low', area_sw=True, energy_sw=True, time_sw=True, broken=False, disk=True, pc=True)
ALTS = dict(
    fa=['m2'], ga=['m2'],
    areas=['fl_over', 'gr_over', 'both_over', 'extremes', 'all_over'],
    energies=['zero_first', 'zero_last', 'zero_all', 'one', 'fill', 'extremes'],
    eo=[1],
    date=['2018-10-14T23:59:40', '2018-10-15T00:00:00', '2018-10-25T12:00:00', '2018-11-05T23:59:40', '2018-11-05T23:59:50', '2018-11-06T00:00:00', '2019-10-20T00:00:00'],
    frame=[True], marked=[True], times=['high', 'mixed'],
    area_sw=[False], energy_sw=[False], time_sw=[False], broken=[True], disk=[False], pc=[False])
AREAS = {  # flash codes, group codes
    'plain': ([1000, 2000, 3000], [100, 200, 300, 400]), 'fl_over': ([1000, 65535, 3000], [100, 200, 300, 400]),
    'gr_over': ([1000, 2000, 3000], [65535, 200, 300, 65535]), 'both_over': ([65535, 2000, 65534], [100, 65535, 300, 65533]),
    'extremes': ([0, 65534, 32768], [32767, 0, 1, 65530]), 'all_over': ([65535] * 3, [65535] * 4)}
ENERGIES = {  # event codes; flash and group codes are fixed and include 0
    'plain': [5, 6, 7, 8, 9], 'zero_first': [0, 6, 7, 8, 9], 'zero_last': [5, 6, 7, 8, 0], 'zero_all': [0] * 5,
    'one': [1, 2, 1, 0, 3], 'fill': [5, 65535, 7, 0, 9], 'extremes': [65534, 32768, 32767, 1, 0]}
TIMES = {'low': [0, 2, 4, 30, 19998], 'high': [65536, 65538, 100000, 131068, 65600], 'mixed': [0, 65534, 65536, 100, 131000]}
EO = [(1.52597e-15, 0.0), (1.9024e-17, 2.8515e-16)]


def cases(tier):
    for lvl, units, disk in itertools.product(('flash', 'group', 'event'), ('nJ', 'fJ', 'kJ'), (True, False)):
        yield dict(DEFAULT, kind='foreign', lvl=lvl, units=units, disk=disk)
    k = 4 if tier == 'thorough' else 2
    for c in deviations(DEFAULT, ALTS, k):
        yield c
    # the affected weeks in full: these need several departures at once
    for date, frame, marked, times, sw, broken, disk in itertools.product(
            [DEFAULT['date']] + ALTS['date'], (False, True), (False, True), ('low', 'high', 'mixed'), (True, False), (False, True), (True, False)):
        c = dict(DEFAULT, kind='time', date=date, frame=frame, marked=marked, times=times, time_sw=sw, broken=broken, disk=disk)
        yield c


def finding_key(c, err):
    # in memory there is no stored form from which the times could be read again
    if not c['disk'] and c['frame'] and c['time_sw'] and affected(c) and 'unexpected exception' in err:
        return 'in-memory-affected-times'


def affected(c):
    t0 = lcfa.when(c['date'])
    import datetime as dt
    return dt.datetime(2018, 10, 15) <= t0 and t0 + dt.timedelta(seconds=20) <= dt.datetime(2018, 11, 6)


def describe(c):
    fa, ga = AREAS[c['areas']]
    en = ENERGIES[c['energies']]
    t = TIMES[c['times']]
    F = [dict(id=30 - i, area=fa[i], energy=[0, 77, 65534][i], t=t[i], t1=t[i + 1]) for i in range(3)]
    G = [dict(id=60 - i, fl=[30, 29, 29, 28][i], area=ga[i], energy=[3, 0, 40000, 1][i], t=t[i]) for i in range(4)]
    E = [dict(id=200 + i, gr=[60, 59, 58, 57, 57][i], energy=en[i], t=t[i]) for i in range(5)]
    if c['broken']:
        G[0]['fl'] = 11     # the first flash loses its group
    es, eo = EO[c['eo']]
    return dict(F=F, G=G, E=E, start=c['date'], aunits=c['fa'], gaunits=c['ga'], frame_times=c['frame'], tunsigned=c['marked'], escale=es, eoffset=eo)


def check_foreign(c, trace):
    """Energies of one level in units other than joules: refused or right, never misread."""
    d = describe(c)
    raw = lcfa.raw(d)
    raw[c['lvl'] + '_energy'].attrs['units'] = c['units']
    if c['disk']:
        arg = scratch() + '/' + lcfa.name(d)
        raw.to_netcdf(arg)
    else:
        arg = xr.decode_cf(raw).load()
    trace.agree()
    try:
        ds = GLMDataset(arg).dataset
    except Exception as e:
        trace.step(c['lvl'], c['units'], 'refused')
        return
    for lvl, l in (('flash', 'F'), ('group', 'G'), ('event', 'E')):
        mul = 1e9 * ({'nJ': 1e-9, 'fJ': 1e-15, 'kJ': 1e3}[c['units']] if lvl == c['lvl'] else 1.0)
        v = ds[lvl + '_energy']
        require(v.attrs['units'] == 'nJ', '%s energies given in %s', lvl, v.attrs['units'])
        got = dict(zip((int(x) for x in ds[lvl + '_id'].values), v.values))
        for r in d[l]:
            if r['energy']:
                w = lcfa.float_energy(r['energy'], d) * mul
                require(abs(float(got[r['id']]) - w) <= 3e-6 * w, '%s energy %r of a file in %s, expected %r or a refusal', lvl, got[r['id']], c['units'], w)
    trace.step(c['lvl'], c['units'], 'converted')


def check(c, trace):
    if c['kind'] == 'foreign':
        return check_foreign(c, trace)
    d = describe(c)
    if c['fa'] != c['ga']:      # the stored scale follows the units of each variable
        d['gscale'] = True
    raw = lcfa.raw(d)
    if c['fa'] != c['ga']:
        mul = np.float32(1e6 if c['ga'] == 'm2' else 1.0)
        raw.group_area.attrs['scale_factor'] = np.float32(lcfa.A_SCALE * mul)
        raw.group_area.attrs['add_offset'] = np.float32(lcfa.A_OFFSET * mul)
    if c['disk']:
        path = scratch() + '/' + lcfa.name(d)
        raw.to_netcdf(path)
        arg = path
    else:
        arg = xr.decode_cf(raw).load()
    ds = GLMDataset(arg, check_area_units=c['area_sw'], change_energy_units=c['energy_sw'], fix_bad_DO07_times=c['time_sw'],
                    calculate_parent_child=c['pc']).dataset
    gone_f, gone_g, gone_e = ({30}, {60}, {200}) if c['broken'] else (set(), set(), set())
    rows = {l: [r for r in d[l] if r['id'] not in g] for l, g in (('F', gone_f), ('G', gone_g), ('E', gone_e))}
    for l, var in (('F', 'flash_id'), ('G', 'group_id'), ('E', 'event_id')):
        require(sorted(int(x) for x in ds[var].values) == sorted(r['id'] for r in rows[l]), '%s', var)

    def col(l, var):
        idv = {'F': 'flash_id', 'G': 'group_id', 'E': 'event_id'}[l]
        got = dict(zip((int(x) for x in ds[idv].values), ds[var].values))
        return [got[r['id']] for r in rows[l]]

    def same(got, want, what, rel=3e-6):
        for g, w, i in zip(got, want, itertools.count()):
            g = float(g)
            require((g != g and w != w) or abs(g - w) <= rel * max(abs(w), 1e-30), '%s[%d] is %r, expected %r', what, i, g, w)
        trace.step(what, [float(g) for g in got])
        trace.agree(len(want))
    nan = float('nan')
    # areas
    for l, var, units in (('F', 'flash_area', c['fa']), ('G', 'group_area', c['ga'])):
        km = [lcfa.float_area(r['area'], units) if r['area'] != 65535 else nan for r in rows[l]]
        if c['area_sw']:
            want = [lcfa.float_area(65535, units) if x != x else x for x in km]
            unit = 'km2'
        else:
            want = [x * (1e6 if units == 'm2' else 1.0) for x in km]
            unit = units
        require(ds[var].attrs['units'] == unit, '%s units %s', var, ds[var].attrs['units'])
        same(col(l, var), want, var)
    # energies
    es, eo = float(np.float32(d['escale'])), float(np.float32(d['eoffset']))
    for l, var in (('F', 'flash_energy'), ('G', 'group_energy'), ('E', 'event_energy')):
        want = [r['energy'] * es + eo if r['energy'] != 65535 else nan for r in rows[l]]
        if c['energy_sw']:
            if l == 'E':
                want = [0.5 * (eo + es) if r['energy'] == 0 else w for r, w in zip(rows[l], want)]
            want = [w * 1e9 for w in want]
        require(ds[var].attrs['units'] == ('nJ' if c['energy_sw'] else 'J'), '%s units %s', var, ds[var].attrs['units'])
        same(col(l, var), want, var)
    # times
    t0 = np.datetime64(lcfa.when(c['date']), 'ns')
    unsigned = c['marked'] or (c['time_sw'] and c['frame'] and affected(c))
    tv = [('E', 'event_time_offset', 't'), ('G', 'group_time_offset', 't'), ('F', 'flash_time_offset_of_first_event', 't'), ('F', 'flash_time_offset_of_last_event', 't1')]
    if c['frame']:
        tv += [('G', 'group_frame_time_offset', 't'), ('F', 'flash_frame_time_offset_of_first_event', 't'), ('F', 'flash_frame_time_offset_of_last_event', 't1')]
    for l, var, k in tv:
        want = []
        for r in rows[l]:
            code = int(r[k] // 2)
            if not unsigned and code >= 32768:
                code -= 65536
            want.append(float(code * 2))
        got = [float((x - t0) / np.timedelta64(1, 'us')) / 1000.0 for x in col(l, var)]
        same(got, want, var, rel=1e-9)
    # positions and identifiers are untouched
    f = lcfa.filled(d)
    for l, var in (('F', 'flash_lat'), ('F', 'flash_lon'), ('G', 'group_lat'), ('G', 'group_lon')):
        src = {r['id']: r[var[-3:]] for r in f[l]}
        same(col(l, var), [float(np.float32(src[r['id']])) for r in rows[l]], var, rel=1e-6)
    ds.close()
