"""Builder of Level 2 lightning (LCFA) data from small JSON descriptions.

A description is {'start', 'nadir', 'F': [...], 'G': [...], 'E': [...]} with one dict per
row; the order of rows is the order in the data.  Areas and energies are stored codes,
times are in ms from the start.  ``raw`` gives the stored form, ``decoded`` what a reader
sees and ``write`` a NetCDF file; all are laid out like the operational product."""
import datetime as dt
import os

import numpy as np
import xarray as xr

E_SCALE = np.float32(1.52597e-15)
A_SCALE = np.float32(0.15163901)
A_OFFSET = np.float32(63.095734)
LL_SCALE = np.float32(0.00203128)
LAT_OFFSET = np.float32(-66.56)
EPOCH = dt.datetime(2000, 1, 1, 12)


def signed(a, n):
    """Codes as stored: unsigned value in a signed integer of n bytes."""
    return np.asarray(a, dtype='u%d' % n).astype('i%d' % n).reshape(-1)


def when(s):
    return dt.datetime.strptime(s, '%Y-%m-%dT%H:%M:%S.%f' if '.' in s else '%Y-%m-%dT%H:%M:%S')


def tree(shape, ids=(1, 101, 1001), **kw):
    """shape is a list of flashes, each a list of event counts, one per group."""
    F, G, E = [], [], []
    g = e = 0
    for f, groups in enumerate(shape):
        F.append(dict(id=ids[0] + f))
        for n in groups:
            G.append(dict(id=ids[1] + g, fl=ids[0] + f))
            for _ in range(n):
                E.append(dict(id=ids[2] + e, gr=ids[1] + g))
                e += 1
            g += 1
    d = dict(F=F, G=G, E=E)
    d.update(kw)
    return d


def filled(d):
    """Description with defaults put in: each row gets values that tell it from others."""
    d = dict(d)
    d.setdefault('start', '2018-07-02T04:33:00')
    d.setdefault('nadir', -75.0)
    d.setdefault('dur', 20)
    d.setdefault('platform', 'G16')
    out = dict(d)
    for lvl, base in (('F', 1), ('G', 2), ('E', 3)):
        rows = []
        for i, r in enumerate(d[lvl]):
            r = dict(r)
            h = (int(r['id']) * 7 + base * 13) % 97
            r.setdefault('lat', round(10.0 + 0.25 * h / 10 + base, 3))
            r.setdefault('lon', round(d['nadir'] - 5.0 + 0.1 * h + base, 3))
            r.setdefault('energy', 5 + h)
            r.setdefault('area', 1000 + 10 * h)
            r.setdefault('t', 2 * h)
            r.setdefault('t1', r['t'] + 40 + 2 * h)
            rows.append(r)
        out[lvl] = rows
    return out


def lonlat_code(lat, lon, nadir):
    lon0 = np.float32(nadir - 66.56)
    la = np.round((np.asarray(lat, 'f8') - float(LAT_OFFSET)) / float(LL_SCALE))
    lo = np.round((np.asarray(lon, 'f8') - float(lon0)) / float(LL_SCALE))
    return np.clip(la, 0, 65534), np.clip(lo, 0, 65534), lon0


def raw(d):
    d = filled(d)
    F, G, E = d['F'], d['G'], d['E']
    col = lambda rows, k: [r[k] for r in rows]
    t0 = when(d['start'])
    ms = 'milliseconds since %s.%03d' % (t0.strftime('%Y-%m-%d %H:%M:%S'), t0.microsecond // 1000)
    fd, gd, ed = 'number_of_flashes', 'number_of_groups', 'number_of_events'
    v = {}
    idattr = {'_Unsigned': 'true', 'units': '1'}
    tattr = {'scale_factor': np.float32(d.get('tscale', 2.0)), 'add_offset': np.float32(d.get('toffset', 0.0)), 'units': ms}
    if d.get('tunsigned'):
        tattr['_Unsigned'] = 'true'
    nid = d.get('flash_id_bytes', 2)

    def tcode(rows, k):
        return signed([int(round((x - float(tattr['add_offset'])) / float(tattr['scale_factor']))) & 0xffff
                       for x in col(rows, k)], 2)
    v['event_id'] = (ed, signed(col(E, 'id'), 4), idattr)
    v['event_time_offset'] = (ed, tcode(E, 't'), tattr)
    la, lo, lon0 = lonlat_code(col(E, 'lat'), col(E, 'lon'), d['nadir'])
    v['event_lat'] = (ed, signed(la, 2), {'_Unsigned': 'true', 'scale_factor': LL_SCALE, 'add_offset': LAT_OFFSET, 'units': 'degrees_north'})
    v['event_lon'] = (ed, signed(lo, 2), {'_Unsigned': 'true', 'scale_factor': LL_SCALE, 'add_offset': lon0, 'units': 'degrees_east'})
    en = {'_FillValue': np.int16(-1), '_Unsigned': 'true', 'scale_factor': np.float32(d.get('escale', E_SCALE)),
          'add_offset': np.float32(d.get('eoffset', 0.0)), 'units': d.get('eunits', 'J')}
    aunits = d.get('aunits', 'km2')
    mul = 1e6 if aunits == 'm2' else 1.0
    ar = {'_FillValue': np.int16(-1), '_Unsigned': 'true', 'scale_factor': np.float32(A_SCALE * mul),
          'add_offset': np.float32(A_OFFSET * mul), 'units': aunits}
    gar = dict(ar, units=d.get('gaunits', aunits))
    v['event_energy'] = (ed, signed(col(E, 'energy'), 2), dict(en, coordinates='event_parent_group_id event_id event_time_offset event_lat event_lon'))
    v['event_parent_group_id'] = (ed, signed(col(E, 'gr'), 4), idattr)
    v['group_id'] = (gd, signed(col(G, 'id'), 4), idattr)
    v['group_time_offset'] = (gd, tcode(G, 't'), tattr)
    v['group_lat'] = (gd, np.array(col(G, 'lat'), 'f4').reshape(-1), {'units': 'degrees_north'})
    v['group_lon'] = (gd, np.array(col(G, 'lon'), 'f4').reshape(-1), {'units': 'degrees_east'})
    gc = 'group_parent_flash_id event_parent_group_id group_id group_time_offset group_lat group_lon'
    v['group_area'] = (gd, signed(col(G, 'area'), 2), dict(gar, coordinates=gc))
    v['group_energy'] = (gd, signed(col(G, 'energy'), 2), dict(en, coordinates=gc))
    v['group_parent_flash_id'] = (gd, signed(col(G, 'fl'), nid), idattr)
    v['flash_id'] = (fd, signed(col(F, 'id'), nid), idattr)
    v['flash_time_offset_of_first_event'] = (fd, tcode(F, 't'), tattr)
    v['flash_time_offset_of_last_event'] = (fd, tcode(F, 't1'), tattr)
    v['flash_lat'] = (fd, np.array(col(F, 'lat'), 'f4').reshape(-1), {'units': 'degrees_north'})
    v['flash_lon'] = (fd, np.array(col(F, 'lon'), 'f4').reshape(-1), {'units': 'degrees_east'})
    fc = 'group_parent_flash_id flash_id flash_time_offset_of_first_event flash_time_offset_of_last_event flash_lat flash_lon'
    v['flash_area'] = (fd, signed(col(F, 'area'), 2), dict(ar, coordinates=fc))
    v['flash_energy'] = (fd, signed(col(F, 'energy'), 2), dict(en, coordinates=fc))
    if d.get('frame_times'):
        v['group_frame_time_offset'] = (gd, tcode(G, 't'), tattr)
        v['flash_frame_time_offset_of_first_event'] = (fd, tcode(F, 't'), tattr)
        v['flash_frame_time_offset_of_last_event'] = (fd, tcode(F, 't1'), tattr)
    sec = (t0 - EPOCH).total_seconds()
    v['product_time'] = ((), np.float64(sec), {'units': 'seconds since 2000-01-01 12:00:00', 'bounds': 'product_time_bounds'})
    v['product_time_bounds'] = ('number_of_time_bounds', np.array([sec, sec + d['dur']]), {})
    v['lon_field_of_view'] = ((), np.float32(d['nadir']), {'units': 'degrees_east', 'bounds': 'lon_field_of_view_bounds'})
    v['lon_field_of_view_bounds'] = ('number_of_field_of_view_bounds', np.array(d.get('lon_bounds', [d['nadir'] - 66.56, d['nadir'] + 66.56]), 'f4'), {})
    v['lat_field_of_view'] = ((), np.float32(0), {'units': 'degrees_north'})
    v['nominal_satellite_subpoint_lon'] = ((), np.float32(d.get('subpoint', d['nadir'])), {'units': 'degrees_east', '_FillValue': np.float32(-999)})
    v['nominal_satellite_height'] = ((), np.float32(35786.023), {'units': 'km', '_FillValue': np.float32(-999)})
    v['yaw_flip_flag'] = ((), np.int8(0), {'_Unsigned': 'true', '_FillValue': np.int8(-1), 'coordinates': 'product_time'})
    attrs = {'dataset_name': name(d), 'platform_ID': d['platform'], 'orbital_slot': d.get('slot', 'GOES-East'),
             'instrument_ID': d.get('instrument', 'FM1'), 'processing_level': 'L2',
             'time_coverage_start': t0.isoformat() + 'Z'}
    return xr.Dataset({k: xr.Variable(x[0], x[1], dict(x[2])) for k, x in v.items()}, attrs=attrs)


def stamp(t):
    return t.strftime('%Y%j%H%M%S') + '%d' % (t.microsecond // 100000)


def name(d):
    d = filled(d)
    t0 = when(d['start'])
    t1 = t0 + dt.timedelta(seconds=d['dur'])
    t2 = t1 + dt.timedelta(seconds=3.1)
    return 'OR_GLM-L2-LCFA_%s_s%s_e%s_c%s.nc' % (d['platform'], stamp(t0), stamp(t1), stamp(t2))


def decoded(d):
    return xr.decode_cf(raw(d)).load()


def write(d, directory, fname=None):
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, fname or name(d))
    raw(d).to_netcdf(path, format='NETCDF4')
    return path


# What a reader must see, computed from the description alone.

def float_energy(code, d):
    """Decoded energy in the stored units."""
    return float(np.float32(code) * np.float32(d.get('escale', E_SCALE)) + np.float32(d.get('eoffset', 0.0)))


def float_area(code, aunits='km2'):
    """Decoded area in km2."""
    mul = np.float32(1e6 if aunits == 'm2' else 1.0)
    x = np.float32(code) * np.float32(A_SCALE * mul) + np.float32(A_OFFSET * mul)
    return float(x) / float(mul)


def event_lonlat(lat, lon, nadir):
    """Location after quantisation by the file."""
    la, lo, lon0 = lonlat_code(lat, lon, nadir)
    return (np.float32(lo) * LL_SCALE + lon0, np.float32(la) * LL_SCALE + LAT_OFFSET)


def ids(ds):
    """Ids present at each level, as lists of ints in row order."""
    return tuple([int(x) for x in ds[v].values] for v in ('flash_id', 'group_id', 'event_id'))
