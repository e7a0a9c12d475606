"""Independent model of fixed-grid navigation, in plain Python floats."""
import math

RE_GRS80, RP_GRS80, H = 6.378137e6, 6.35675231414e6, 35.786023e6
ELLIPSOIDS = {0: (6.394140e6, 6.362755e6), 1: (6.392137e6, 6.362755e6)}


def fixed_grid(lon, lat, sat_lon, rev, height=H, re=RE_GRS80, rp=RP_GRS80):
    """Scan angles (x, y) of the point at geodetic lon, lat lifted to the lightning ellipsoid."""
    a, b = ELLIPSOIDS[rev]
    phi = math.radians(lat)
    gc = math.atan2((rp / re) ** 2 * math.sin(phi), math.cos(phi))      # geocentric latitude
    r = 1.0 / math.sqrt((math.cos(gc) / a) ** 2 + (math.sin(gc) / b) ** 2)
    lam = math.radians(lon - sat_lon)
    px, py, pz = r * math.cos(gc) * math.cos(lam), r * math.cos(gc) * math.sin(lam), r * math.sin(gc)
    dx, dy, dz = height + re - px, py, pz       # from the satellite: toward earth, east, north
    return math.atan2(dy, math.hypot(dx, dz)), math.atan2(dz, dx)


def fixed_grid_earth(lon, lat, sat_lon, height=H, re=RE_GRS80, rp=RP_GRS80):
    """Scan angles of the point at geodetic lon, lat on the surface of the earth."""
    phi, lam = math.radians(lat), math.radians(lon - sat_lon)
    gc = math.atan2((rp / re) ** 2 * math.sin(phi), math.cos(phi))
    r = 1.0 / math.sqrt((math.cos(gc) / re) ** 2 + (math.sin(gc) / rp) ** 2)
    dx, dy, dz = height + re - r * math.cos(gc) * math.cos(lam), r * math.cos(gc) * math.sin(lam), r * math.sin(gc)
    return math.atan2(dy, math.hypot(dx, dz)), math.atan2(dz, dx)


def lon_lat(x, y, sat_lon, rev):
    """Invert fixed_grid by Newton iterations on (lon, lat); x, y well inside the disk."""
    lon, lat = sat_lon + math.degrees(x) * 6.0, math.degrees(y) * 6.0
    for _ in range(60):
        fx, fy = fixed_grid(lon, lat, sat_lon, rev)
        ex, ey = x - fx, y - fy
        if abs(ex) < 1e-13 and abs(ey) < 1e-13:
            return lon, lat
        e = 1e-5
        ax, ay = fixed_grid(lon + e, lat, sat_lon, rev)
        bx, by = fixed_grid(lon, lat + e, sat_lon, rev)
        j00, j10, j01, j11 = (ax - fx) / e, (ay - fy) / e, (bx - fx) / e, (by - fy) / e
        det = j00 * j11 - j01 * j10
        sx, sy = (j11 * ex - j01 * ey) / det, (-j10 * ex + j00 * ey) / det
        big = max(abs(sx), abs(sy), 10.0) / 10.0
        lon, lat = lon + sx / big, lat + sy / big
        lat = max(-80.0, min(80.0, lat))
    return lon, lat
