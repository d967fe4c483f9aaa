"""Reference WGS84 geometry (extended precision, independent formulation)."""
import numpy as np

LD = np.longdouble
A = LD("6378.137")
B = LD("6356.7523142")
E2 = 1 - (B / A) ** 2
DEG = np.arctan2(LD(0), LD(-1)) / 180   # pi/180 in extended precision
D90 = LD(90)


def sincosd(deg):
    """ Exact-at-multiples-of-90 sine and cosine of angles in degrees. """
    deg = np.asarray(deg, LD)
    red = np.remainder(deg, LD(360))
    quad = np.floor((red + 45) / 90)
    rest = (red - 90 * quad) * DEG
    quad = np.nan_to_num(quad).astype(int) % 4
    s, c = np.sin(rest), np.cos(rest)
    sin = np.choose(quad, [s, c, -s, -c])
    cos = np.choose(quad, [c, -s, -c, s])
    return sin, cos


def geod2cyl(lat, height):
    """ geodetic latitude, height -> distance from the axis, z """
    s, c = sincosd(lat)
    n = A / np.sqrt(1 - E2 * s * s)
    return (n + height) * c, (n * (1 - E2) + height) * s


def geod2cart(lat, lon, height):
    """ geodetic -> Cartesian """
    p, z = geod2cyl(np.asarray(lat, LD), np.asarray(height, LD))
    s, c = sincosd(lon)
    return p * c, p * s, z


def sph2cart(lat, lon, rad):
    """ spherical -> Cartesian """
    s, c = sincosd(lat)
    sl, cl = sincosd(lon)
    rad = np.asarray(rad, LD)
    return rad * c * cl, rad * c * sl, rad * s


def to_cart(coords, ctype):
    """ any coordinates [...,3] -> extended precision Cartesian [...,3] """
    coords = np.asarray(coords, LD)
    a, b, c = coords[..., 0], coords[..., 1], coords[..., 2]
    if ctype == 0:
        return np.stack(geod2cart(a, b, c), axis=-1)
    if ctype == 1:
        return np.stack(sph2cart(a, b, c), axis=-1)
    return coords


def cyl2geod(p, z):
    """ distance from the axis (p >= 0), z -> geodetic latitude (deg), height.

    The foot point on the ellipsoid is found by Newton iterations of the
    reduced latitude condition, valid outside of the evolute of the meridian.
    """
    p = np.asarray(p, LD)
    z = np.asarray(z, LD)
    za = np.abs(z)
    # bisection of the Lagrange condition in t (Eberly's robust form):
    # (A p / (t + A^2))^2 + (B z / (t + B^2))^2 = 1,  t > -B^2
    r0 = (A / B) ** 2
    z0 = np.where(p > 0, p / A, 0)     # major axis
    z1 = za / B
    g = lambda s: (r0 * z0 / (s + r0)) ** 2 + (z1 / (s + 1)) ** 2 - 1
    lo = -1 + z1
    hi = np.where((z0 == 0) & (z1 == 0), 0, -1 + np.hypot(r0 * z0, z1))
    lo = lo.copy() if isinstance(lo, np.ndarray) else lo
    with np.errstate(all="ignore"):
        for _ in range(140):
            mid = (lo + hi) / 2
            val = g(mid)
            lo = np.where(val > 0, mid, lo)
            hi = np.where(val > 0, hi, mid)
        s = (lo + hi) / 2
        t = s * B * B
        px = A * A * p / (t + A * A)          # foot point
        pz = np.where(za > 0, B * B * za / (t + B * B), 0)
    # latitude of the normal at the foot point
    lat = np.arctan2(A * A * pz, B * B * px) / DEG
    lat = np.where(px == 0, D90, lat)
    height = t * np.hypot(px / (A * A), pz / (B * B))
    return np.copysign(lat, z), height


def cart2geod(cart):
    """ Cartesian [...,3] -> geodetic [...,3] """
    x, y, z = (np.asarray(cart[..., i], LD) for i in range(3))
    lat, height = cyl2geod(np.hypot(x, y), z)
    return np.stack([lat, np.arctan2(y, x) / DEG, height], axis=-1)


def cart2sph(cart):
    """ Cartesian [...,3] -> spherical [...,3] """
    x, y, z = (np.asarray(cart[..., i], LD) for i in range(3))
    p = np.hypot(x, y)
    return np.stack([np.arctan2(z, p) / DEG, np.arctan2(y, x) / DEG, np.hypot(p, z)], axis=-1)


def from_cart(cart, ctype):
    """ Cartesian -> any """
    if ctype == 0:
        return cart2geod(cart)
    if ctype == 1:
        return cart2sph(cart)
    return cart


def basis(lat, lon):
    """ Rows: unit vectors north, east, up [...,3,3] of the frame given by the
    latitude and longitude in degrees. """
    s, c = sincosd(lat)
    sl, cl = sincosd(lon)
    zero = np.zeros(np.broadcast(s, sl).shape, LD)
    north = np.stack([-s * cl + zero, -s * sl + zero, c + zero], axis=-1)
    east = np.stack([-sl + zero, cl + zero, zero], axis=-1)
    up = np.stack([c * cl + zero, c * sl + zero, s + zero], axis=-1)
    return np.stack([north, east, up], axis=-2)


def frame(coords, ctype):
    """ Rows: unit vectors of the local frame at the location given in
    coordinates of that type. """
    if ctype == 2:
        coords = np.asarray(coords)
        return np.broadcast_to(np.eye(3, dtype=LD), coords.shape[:-1] + (3, 3))
    return basis(coords[..., 0], coords[..., 1])


def angdiff(a, b):
    """ difference of angles in degrees wrapped to +-180 """
    d = np.remainder(np.asarray(a, LD) - np.asarray(b, LD), LD(360))
    return np.where(d > 180, d - 360, d)
