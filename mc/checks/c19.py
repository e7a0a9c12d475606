"""C19: repair of unsigned data recovers the true value for every code."""
import itertools

import numpy as np
import xarray as xr

from mc.core import require, scratch
from glmtools.io import glm

BOUNDS = {
    'quick': 'all 256 codes of 8 bit and all 65,536 codes of 16 bit data, 8 scale/offset pairs, decoded in double and single precision where the steps can be told apart; '
             'event locations through arrays and through NetCDF variables, all 65,536 codes',
    'thorough': 'the same with 40 scale/offset pairs',
}

PAIRS = [(1.0, 0.0), (2.0, 0.0), (0.00203128, -66.56), (0.00203128, -141.56), (0.15163901, 63.095734),
         (1.52597e-15, 0.0), (1.9024e-17, 2.8515e-16), (0.1, -0.3)]


def cases(tier):
    pairs = list(PAIRS)
    if tier == 'thorough':
        pairs += [(s, o) for s in (0.001, 0.0625, 1 / 3.0, 7.0) for o in (-1000.0, -1.1, 0.0, 0.3, 5.5, 100.0, 1e4, 66.56)]
    for (s, o), bits, prec in itertools.product(pairs, (8, 16), ('f8', 'f4')):
        if prec == 'f4' and abs(o) / s > 2 ** 21:
            continue
        yield dict(kind='fix_unsigned', scale=s, offset=o, bits=bits, prec=prec)
    for prec in ('f8', 'f4'):
        yield dict(kind='location', prec=prec)
    yield dict(kind='location_nc')


def check(case, trace):
    if case['kind'] == 'fix_unsigned':
        bits, s, o, prec = case['bits'], case['scale'], case['offset'], case['prec']
        codes = np.arange(2 ** bits)
        stored = codes.astype('u%d' % (bits // 8)).astype('i%d' % (bits // 8))
        if prec == 'f4':
            s, o = np.float32(s), np.float32(o)
        dec = (stored.astype(prec) * s + o).astype(prec)
        da = xr.DataArray(dec, dims=['n'])
        da.encoding.update(dtype=stored.dtype, scale_factor=s, add_offset=o)
        got = np.asarray(glm.fix_unsigned(da), dtype='f8')
        want = codes * float(s) + float(o)
        tol = (0.01 if prec == 'f8' else 0.4) * float(s)
        bad = np.flatnonzero(~(np.abs(got - want) <= tol))
        require(got.shape == want.shape and bad.size == 0, '%d codes wrong, first %s: %s expected %s', bad.size,
                codes[bad[:1]], got[bad[:1]], want[bad[:1]])
        for x in np.unique(np.round((got - float(o)) / float(s))):
            trace.states.add(int(x).to_bytes(8, 'big'))
        trace.steps += len(codes)
        trace.agree(len(codes))
        return
    codes = np.arange(65536)
    stored = codes.astype('u2').astype('i2')
    s = 0.00203128
    want_lat, want_lon = codes * s - 66.56, codes[::-1] * s - 156.06
    if case['kind'] == 'location':
        p = case['prec']
        lat = xr.DataArray((stored * s - 66.56).astype(p), dims=['n'])
        lon = xr.DataArray((stored[::-1] * s - 156.06).astype(p), dims=['n'])
        got = glm.fix_event_locations(lat, lon, is_xarray=True)
    else:
        import netCDF4
        path = scratch() + '/a.nc'
        nc = netCDF4.Dataset(path, 'w')
        nc.createDimension('n', 65536)
        for n, v in (('lat', stored), ('lon', stored[::-1])):
            var = nc.createVariable(n, 'i2', ('n',))
            var.setncattr('_Unsigned', 'true')
            var.setncattr('scale_factor', np.float32(s))
            var.setncattr('add_offset', np.float32(-66.56 if n == 'lat' else -156.06))
            var.set_auto_maskandscale(False)
            var[:] = v
        nc.close()
        nc = netCDF4.Dataset(path)
        got = glm.fix_event_locations(nc['lat'], nc['lon'])
        nc.close()
    for g, w, n in zip(got, (want_lat, want_lon), ('lat', 'lon')):
        g = np.asarray(g, dtype='f8')
        bad = np.flatnonzero(~(np.abs(g - w) <= 0.2 * s))
        require(bad.size == 0, '%s: %d codes wrong, first %s', n, bad.size, bad[:1])
        for x in np.round((g - w[0]) / s):
            trace.states.add(int(x).to_bytes(8, 'big', signed=True))
        trace.steps += len(codes)
        trace.agree(len(codes))
