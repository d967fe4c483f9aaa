"""Reference spherical harmonics in extended precision."""
import numpy as np
from vk.ref import geo

LD = np.longdouble
RE = LD("6371.2")


def size(degree):
    """ number of n, m >= 0 pairs """
    return (degree + 1) * (degree + 2) // 2


def index(n, m):
    """ position of the pair """
    return n * (n + 1) // 2 + m


def legendre(lat, degree):
    """ Schmidt semi-normalised P, its latitude derivative dP and Q = P/cos(lat)
    (m > 0), arrays [..., size], for the latitude in degrees. """
    s, c = geo.sincosd(lat)
    shape = s.shape
    p = np.zeros(shape + (size(degree),), LD)
    d = np.zeros_like(p)
    q = np.zeros_like(p)
    p[..., 0] = 1
    for m in range(degree + 1):
        if m > 0:
            k = LD(1) if m == 1 else np.sqrt(LD(2 * m - 1) / (2 * m))
            i0, i1 = index(m, m), index(m - 1, m - 1)
            p[..., i0] = k * c * p[..., i1]
            d[..., i0] = k * (c * d[..., i1] - s * p[..., i1])
            q[..., i0] = k * p[..., i1]
        for n in range(m + 1, degree + 1):
            i0, i1, i2 = index(n, m), index(n - 1, m), index(n - 2, m) if n - 2 >= m else None
            w0 = 1 / np.sqrt(LD(n * n - m * m))
            w1 = LD(2 * n - 1) * w0
            p[..., i0] = w1 * s * p[..., i1]
            d[..., i0] = w1 * (s * d[..., i1] + c * p[..., i1])
            q[..., i0] = w1 * s * q[..., i1]
            if i2 is not None:
                w2 = np.sqrt(LD((n - 1) ** 2 - m * m)) * w0
                p[..., i0] -= w2 * p[..., i2]
                d[..., i0] -= w2 * d[..., i2]
                q[..., i0] -= w2 * q[..., i2]
    return p, d, q


def nm_arrays(degree):
    """ n and m of each element """
    n = np.concatenate([np.full(i + 1, i) for i in range(degree + 1)])
    m = np.concatenate([np.arange(i + 1) for i in range(degree + 1)])
    return n, m


def radial(rad, degree, is_internal=True, ref=RE):
    """ gradient radial powers: (a/r)^(n+2) or (r/a)^(n-1) """
    n = np.arange(degree + 1)
    rr = np.asarray(rad, LD)[..., None] / LD(ref)
    return rr ** (-(n + 2)) if is_internal else rr ** (n - 1)


def cossin(lon, degree):
    """ cos(m lon), sin(m lon) [..., degree+1] """
    m = np.arange(degree + 1)
    s, c = geo.sincosd(np.asarray(lon, LD)[..., None] * m)
    return c, s


def evaluate(lat, lon, rad, coef, degree=None, is_internal=True):
    """ potential, gradient (north, east, up) and the magnitudes of the sums
    at the spherical coordinates; coef is [..., size, 2] """
    coef = np.asarray(coef, LD)
    if degree is None or degree < 0:
        degree = int(round((np.sqrt(8 * coef.shape[-2] + 1) - 3) / 2))
    coef = coef[..., :size(degree), :]
    p, d, q = legendre(lat, degree)
    n, m = nm_arrays(degree)
    c, s = cossin(lon, degree)
    r = np.asarray(rad, LD)
    rrp = radial(r, degree, is_internal)[..., n]
    g, h = coef[..., 0], np.where(m > 0, coef[..., 1], 0)
    t0 = g * c[..., m] + h * s[..., m]
    t1 = m * (h * c[..., m] - g * s[..., m])
    a0 = np.abs(g) + np.abs(h)
    dr = -(n + 1) if is_internal else n
    pot = r * (rrp * p * t0).sum(-1)
    grad = np.stack([
        (rrp * d * t0).sum(-1), (rrp * q * t1).sum(-1), (rrp * p * t0 * dr).sum(-1)], axis=-1)
    pmag = np.abs(r) * (rrp * a0).sum(-1)
    gmag = (rrp * a0 * (n + 1)).sum(-1)
    return pot, grad, pmag, gmag


def field(coords, coef, ctype_in=1, ctype_out=1, degree=None, is_internal=True):
    """ potential, gradient in the requested frame, magnitudes """
    coords = np.asarray(coords, LD)
    if ctype_in == 1:
        sph = coords
    else:
        sph = geo.cart2sph(geo.to_cart(coords, ctype_in))
        if ctype_in == 0:
            sph[..., 1] = coords[..., 1]
    pot, grad, pmag, gmag = evaluate(
        sph[..., 0], sph[..., 1], sph[..., 2], coef, degree, is_internal)
    if ctype_out != 1:
        cart = np.einsum("...i,...ij->...j", grad, geo.basis(sph[..., 0], sph[..., 1]))
        if ctype_out == 2:
            grad = cart
        else:
            if ctype_in == 0:
                geod = coords
            else:
                geod = geo.cart2geod(geo.to_cart(sph, 1))
                geod[..., 1] = sph[..., 1]
            grad = np.einsum("...j,...ij->...i", cart, geo.basis(geod[..., 0], geod[..., 1]))
    return pot, grad, pmag, gmag


def dense(nm, values, degree=None):
    """ sparse (n, +-m) coefficients -> dense [..., size, 2]; values [..., terms] """
    nm = np.asarray(nm)
    values = np.asarray(values)
    if degree is None:
        degree = int(nm[:, 0].max())
    out = np.zeros(values.shape[:-1] + (size(degree), 2), values.dtype)
    for i, (n, m) in enumerate(nm):
        out[..., index(int(n), abs(int(m))), 1 if m < 0 else 0] += values[..., i]
    return out
