import numpy as np
from pyproj import Proj

# Grid spacings of the GOES-R fixed grid, radians.
goesr_resolutions = {
    '0.5km': 14e-6,
    '1.0km': 28e-6,
    '2.0km': 56e-6,
    '4.0km': 112e-6,
    '8.0km': 224e-6,
    '10.0km': 280e-6,
    '100.0km': 2800e-6,
}
goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}


class GeographicSystem(object):
    """lon, lat (deg), alt (m) on GRS80 <-> earth centred cartesian."""
    re, rp = 6378137.0, 6356752.31414

    def toECEF(self, lon, lat, alt):
        lon, lat, alt = (np.asarray(v, dtype='f8') for v in (lon, lat, alt))
        lam, phi = np.radians(lon), np.radians(lat)
        e2 = 1.0 - (self.rp / self.re) ** 2
        n = self.re / np.sqrt(1.0 - e2 * np.sin(phi) ** 2)
        return ((n + alt) * np.cos(phi) * np.cos(lam),
                (n + alt) * np.cos(phi) * np.sin(lam),
                (n * (1.0 - e2) + alt) * np.sin(phi))

    def fromECEF(self, x, y, z):
        # Only called with points on the ellipsoid surface.
        x, y, z = (np.asarray(v, dtype='f8') for v in (x, y, z))
        e2 = 1.0 - (self.rp / self.re) ** 2
        p = np.hypot(x, y)
        lat = np.arctan2(z, p * (1.0 - e2))
        return np.degrees(np.arctan2(y, x)), np.degrees(lat), np.zeros_like(lat)


class GeostationaryFixedGridSystem(object):
    def __init__(self, subsat_lon=0.0, h=35786023.0):
        self.h = h
        self.proj = Proj(proj='geos', lon_0=subsat_lon, h=h, sweep='x',
                         a=GeographicSystem.re, b=GeographicSystem.rp)
        self.geo = GeographicSystem()

    def toECEF(self, x, y, z):
        x, y = np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8')
        lon, lat = self.proj(x * self.h, y * self.h, inverse=True)
        return self.geo.toECEF(lon, lat, np.zeros_like(x))

    def fromECEF(self, x, y, z):
        lon, lat, alt = self.geo.fromECEF(x, y, z)
        px, py = self.proj(lon, lat)
        return np.asarray(px) / self.h, np.asarray(py) / self.h, alt


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return GeostationaryFixedGridSystem(subsat_lon=sat_lon_nadir), GeographicSystem()


goesr_nadir_lon = {'east': -75.0, 'west': -137.0, 'test': -89.5}
_views = {'full': goesr_full, 'conus': goesr_conus, 'meso': goesr_meso}
_centers = {('full', p): (0.0, 0.0) for p in goesr_nadir_lon}
_centers.update({('conus', 'east'): (-0.031360, 0.086240), ('conus', 'west'): (0.0, 0.086240), ('conus', 'test'): (-0.005040, 0.084560)})


def get_GOESR_grid(position='east', view='full', resolution='2.0km'):
    span = _views[view]
    d = goesr_resolutions[resolution]
    out = dict(resolution=d, nadir_lon=goesr_nadir_lon[position],
               pixelsEW=int(round(span['spanEW'] / d)), pixelsNS=int(round(span['spanNS'] / d)), **span)
    if (view, position) in _centers:
        out['centerEW'], out['centerNS'] = _centers[view, position]
    return out
