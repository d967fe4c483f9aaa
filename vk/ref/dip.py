"""Reference tilted dipole frame (extended precision)."""
import numpy as np
from vk.ref import geo, sh

LD = np.longdouble


def rotation(lat, lon):
    """ matrix whose columns are the dipole axes in geographic Cartesian
    coordinates: z along the pole, y horizontal (eastward at the pole's
    meridian), x completing the right-handed frame """
    s, c = geo.sincosd(lat)
    sl, cl = geo.sincosd(lon)
    zero = s * 0 * sl
    ax = np.stack([s * cl, s * sl, -c + zero], axis=-1)
    ay = np.stack([-sl + zero, cl + zero, zero], axis=-1)
    az = np.stack([c * cl, c * sl, s + zero], axis=-1)
    return np.stack([ax, ay, az], axis=-1)


def to_dipole(cart, rot):
    """ geographic Cartesian -> dipole Cartesian """
    return np.einsum("...i,...ij->...j", np.asarray(cart, LD), rot)


def from_dipole(cart, rot):
    """ dipole Cartesian -> geographic Cartesian """
    return np.einsum("...j,...ij->...i", np.asarray(cart, LD), rot)


def field(coords, coef, pole, cin, cout, degree, internal):
    """ gradient in the geographic frame of the series given in the dipole
    frame, and the magnitude """
    rot = rotation(LD(pole[0]), LD(pole[1]))
    cart = geo.to_cart(coords, cin)
    dip = geo.cart2sph(to_dipole(cart, rot))
    _, grad, _, mag = sh.evaluate(dip[..., 0], dip[..., 1], dip[..., 2], coef, degree, internal)
    vec = from_dipole(np.einsum("...i,...ij->...j", grad, geo.basis(dip[..., 0], dip[..., 1])), rot)
    if cout == 2:
        return vec, mag
    if cout == cin:
        out = np.asarray(coords, LD)
    elif cout == 1:
        out = geo.cart2sph(cart)
    else:
        out = geo.cart2geod(cart)
    if cin != 2 and cout != 2:
        out = out.copy()
        out[..., 1] = np.asarray(coords, LD)[..., 1]
    return np.einsum("...j,...ij->...i", vec, geo.basis(out[..., 0], out[..., 1])), mag


def sun_angle(lat_pole, lon_pole, lat_sol, lon_sol):
    """ (dipole longitude of the sub-solar point in degrees, distance of the
    point from the dipole axis) """
    rot = rotation(np.asarray(lat_pole, LD), np.asarray(lon_pole, LD))
    sun = np.stack(geo.sph2cart(lat_sol, lon_sol, LD(1)), axis=-1)
    dip = to_dipole(sun, rot)
    return np.arctan2(dip[..., 1], dip[..., 0]) / geo.DEG, np.hypot(dip[..., 0], dip[..., 1])
