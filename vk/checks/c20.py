"""C20 dipole coordinates and fields are one rigid rotation"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import dip, geo, sh
from vk.checks import c08
from vk.checks.c13 import Table
from vk.checks.c14 import wrap
from vk.checks.c15 import times_for
from eoxmagmod import convert, sheval, vnorm
from eoxmagmod.dipole import sheval_dipole, rotate_vectors_from_dipole
from eoxmagmod.dipole_coords import get_dipole_rotation_matrix, convert_to_dipole, vrot_from_dipole
from eoxmagmod.magnetic_model.model import (
    DipoleSphericalHarmomicGeomagneticModel, SphericalHarmomicGeomagneticModel,
)

REG = Registry(
    rule="a case is one dipole axis with a batch of locations, vectors or a model whose conversion, rotation "
         "or field is compared with the rigid rotation in extended precision and with its invariants",
)
LD = np.longdouble
POT, GRAD, BOTH = 1, 2, 3


def pole(rng):
    """ axis: realistic, arbitrary, degenerate """
    kind = rng.integers(0, 4)
    if kind == 0:
        return float(rng.uniform(75, 90)), float(rng.uniform(-180, 180))
    if kind == 1:
        return float(rng.choice([90.0, -90.0, 0.0, 80.08])), float(rng.choice([0.0, 180.0, -180.0, -72.22, 287.78, 90.0]))
    return float(gen.latitudes(rng)), float(gen.longitudes(rng))


def spherical(lat, lon, rad):
    """ coordinates """
    return np.stack(np.broadcast_arrays(lat, lon, rad), axis=-1)


@REG.family(quick=3000, thorough=30000)
def coordinates(ctx, rng):
    """ convert_to_dipole """
    axis = pole(rng)
    shape = gen.shape(rng)
    cin = int(rng.integers(0, 3))
    coords = c08.points(rng, shape, cin)
    kwargs = {} if cin == 1 and rng.random() < 0.5 else {"coord_type_in": cin}
    ctx.note(pole=axis, coords=coords, cin=cin)
    got = convert_to_dipole(gen.relayout(rng, coords)[1] if coords.size else coords, *axis, **kwargs)
    rot = dip.rotation(LD(axis[0]), LD(axis[1]))
    cart = geo.to_cart(coords, cin)
    want = dip.to_dipole(cart, rot)
    rad = np.linalg.norm(np.asarray(cart, float), axis=-1)
    ctx.check(np.shape(got) == coords.shape, "shape")
    ctx.close("location", geo.to_cart(got, 1), want, rtol=0, atol=3e-15 * (3 + np.abs(coords[..., 1:2]) / 57 * (cin != 2)) * rad[..., None])
    ctx.close("radius", got[..., 2], np.sqrt((want * want).sum(-1)), rtol=2e-15)
    ctx.check(np.all(np.abs(got[..., 0]) <= 90) and np.all(np.abs(got[..., 1]) <= 180), "ranges", got=got)
    matrix = get_dipole_rotation_matrix(*axis)
    ctx.close("matrix", matrix, rot, rtol=0, atol=1e-15 * (2 + abs(axis[1]) / 57))


@REG.family(quick=1500, thorough=15000)
def invariants(ctx, rng):
    """ poles, distances between points, prime meridian """
    axis = pole(rng)
    rad = float(gen.radii(rng))
    size = gen.tail(rng, 2, 8, 60)
    coords = c08.points(rng, (size,), 1)
    ctx.note(pole=axis, coords=coords, radius=rad)
    north = convert_to_dipole(np.array([axis[0], axis[1], rad]), *axis)
    south = convert_to_dipole(np.array([-axis[0], axis[1] + 180, rad]), *axis)
    slack = 1e-13 * (10 + abs(axis[1]))
    ctx.close("north pole", [north[0], north[2]], [90, rad], rtol=1e-14, atol=slack)
    ctx.close("south pole", [south[0], south[2]], [-90, rad], rtol=1e-14, atol=slack)
    if abs(axis[0]) < 89.9:
        # the geographic pole lies on the meridian of the dipole longitude of 180 degrees
        geop = convert_to_dipole(np.array([90.0, 0.0, rad]), *axis)
        ctx.close("geographic pole", [geop[0], abs(geop[1])], [axis[0], 180.0], rtol=0, atol=1e-11)
    dips = convert_to_dipole(coords, *axis)
    one, two = (np.asarray(convert(v, 1, 2), LD) for v in (coords, dips))
    for i in range(1, size):
        a, b = one[i] - one[0], two[i] - two[0]
        ctx.close("distance", np.sqrt((b * b).sum()), np.sqrt((a * a).sum()), rtol=0,
                  atol=1e-14 * (coords[0, 2] + coords[i, 2]) * (2 + abs(coords[:, 1]).max() / 57))
        ctx.close("angle", (two[i] * two[0]).sum(), (one[i] * one[0]).sum(), rtol=0,
                  atol=1e-14 * coords[0, 2] * coords[i, 2] * (2 + abs(coords[:, 1]).max() / 57))
    cross1 = np.linalg.det(np.asarray(one[:3], float)) if size > 2 else 0.0
    cross2 = np.linalg.det(np.asarray(two[:3], float)) if size > 2 else 0.0
    ctx.close("orientation", cross2, cross1, rtol=0, atol=1e-13 * np.prod(coords[:3, 2]) * (10 + abs(coords[:, 1]).max() / 5))


@REG.family(quick=2000, thorough=20000)
def vectors(ctx, rng):
    """ rotation of vectors """
    axis = pole(rng)
    shape = gen.shape(rng)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, shape, cin)
    vecs = rng.normal(size=shape + (3,)) * 10.0 ** rng.uniform(-3, 5)
    dips = convert_to_dipole(coords, *axis, cin)
    ctx.note(pole=axis, coords=coords, vectors=vecs, cin=cin, cout=cout)
    rot = dip.rotation(LD(axis[0]), LD(axis[1]))
    glob = dip.from_dipole(np.einsum("...i,...ij->...j", vecs.astype(LD), geo.basis(dips[..., 0], dips[..., 1])), rot)
    if cout == 2:
        want = glob
        got = vrot_from_dipole(vecs, *axis, dips[..., 0], dips[..., 1])
    else:
        out = np.asarray(convert(coords, cin, cout))
        want = np.einsum("...j,...ij->...i", glob, geo.basis(out[..., 0], out[..., 1]))
        got = vrot_from_dipole(vecs, *axis, dips[..., 0], dips[..., 1], out[..., 0], out[..., 1], cout)
    size = np.linalg.norm(vecs, axis=-1)
    wide = 4e-15 * (3 + (np.abs(coords[..., 1]) / 57 if cin != 2 else 0) + abs(axis[1]) / 57)
    atol = (size * wide)[..., None]
    ctx.close("rotated vectors", got, want, rtol=0, atol=atol)
    ctx.close("magnitudes", vnorm(got) if np.size(got) else size, size, rtol=1e-14)
    again = rotate_vectors_from_dipole(vecs, *axis, dips, coords, cin, cout)
    ctx.close("rotation at locations", again, want, rtol=0, atol=atol)


def _case(rng, degree_top=8):
    degree = int(rng.integers(0, degree_top))
    coef = c08.coefficients(rng, degree)
    return degree, coef


@REG.family(quick=1500, thorough=15000)
def fields(ctx, rng):
    """ sheval_dipole """
    axis = pole(rng)
    shape = gen.shape(rng)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, shape, cin)
    degree, coef = _case(rng)
    internal = bool(rng.integers(0, 2))
    mode = int(rng.integers(1, 4))
    kwargs = {"mode": mode, "is_internal": internal, "coord_type_in": cin, "coord_type_out": cout}
    spot, sgrd = 1.0, 1.0
    if rng.random() < 0.3:
        spot = kwargs["scale_potential"] = float(rng.normal())
    if rng.random() < 0.3:
        sgrd = kwargs["scale_gradient"] = [-1.0, np.array([1.0, 2.0, -0.5]), 0.0, np.array([0.0, 0.0, 2.0])][rng.choice(4, p=[0.4, 0.4, 0.1, 0.1])]
    if rng.random() < 0.3:
        kwargs["degree"] = int(rng.integers(0, degree + 1))
    top = kwargs.get("degree", degree)
    ctx.note(pole=axis, coords=coords, coef=coef, kwargs=kwargs)
    res = sheval_dipole(coords, coef, *axis, **kwargs)
    pot, grad = (res, None) if mode == POT else (None, res) if mode == GRAD else res
    want, gmag = dip.field(coords, coef, axis, cin, cout, top, internal)
    rot = dip.rotation(LD(axis[0]), LD(axis[1]))
    dsph = geo.cart2sph(dip.to_dipole(geo.to_cart(coords, cin), rot))
    wpot, _, pmag, _ = sh.evaluate(dsph[..., 0], dsph[..., 1], dsph[..., 2], coef, top, internal)
    dflt = np.asarray(dsph, float)
    extra = 4 + np.abs(coords[..., 1]) / 57 * (cin != 2) + abs(axis[1]) / 57
    if pot is not None:
        ctx.close("potential", pot, wpot * LD(spot), rtol=0, atol=abs(spot) * c08.tolerance(dflt, 1, pmag, top, 3 * extra) + 1e-290)
    if grad is not None:
        scl = np.asarray(sgrd, LD)
        ctx.close("gradient", grad, want * scl, rtol=0,
                  atol=c08.tolerance(dflt, 1, gmag, top, 3 * extra)[..., None] * np.abs(np.asarray(scl, float)) + 1e-290)


def axial(lat, lon):
    """ degree 1 coefficients of a field g10 given in the dipole frame """
    s, c = geo.sincosd(LD(lat))
    sl, cl = geo.sincosd(LD(lon))
    return np.asarray([s, c * cl, c * sl], float)


@REG.family(quick=1200, thorough=12000)
def rotated_coefficients(ctx, rng):
    """ coefficients rotated to the dipole frame reproduce the geographic field """
    axis = pole(rng)
    internal = bool(rng.integers(0, 2))
    size = gen.tail(rng, 1, 6, 60)
    coords = c08.points(rng, (size,), 1)
    # degree one coefficients transform as the Cartesian components (g11, h11, g10)
    g10, g11, h11 = rng.normal(size=3) * 100
    rot = np.asarray(dip.rotation(LD(axis[0]), LD(axis[1])), float)
    d11, e11, d10 = np.array([g11, h11, g10]) @ rot
    geo_coef = np.array([[0, 0], [g10, 0], [g11, h11]])
    dip_coef = np.array([[0, 0], [d10, 0], [d11, e11]])
    ctx.note(pole=axis, coords=coords, geographic=geo_coef, dipole=dip_coef)
    for ctype in range(3):
        a = sheval(coords, geo_coef, is_internal=internal, mode=GRAD, coord_type_in=1, coord_type_out=ctype)
        b = sheval_dipole(coords, dip_coef, *axis, is_internal=internal, mode=GRAD, coord_type_in=1, coord_type_out=ctype)
        big = np.linalg.norm(a, axis=-1).max()
        bound = (np.abs(geo_coef).sum() * 2 * np.maximum(1, (6371.2 / coords[:, 2]) ** 3))[:, None]
        wide = 1e-14 * (6 + np.abs(coords[:, 1:2]) / 57 + abs(axis[1]) / 57)
        # the neglected order two terms close to the pole do not exist here
        ctx.close("gradient", b, a, rtol=0, atol=wide * bound + 0 * big)
    # a purely axial dipole field
    value = 1000.0
    pure = sheval_dipole(coords, np.array([[0, 0], [value, 0], [0, 0.0]]), *axis, mode=GRAD, coord_type_in=1, coord_type_out=2)
    a10, a11, b11 = axial(*axis) * value
    same = sheval(coords, np.array([[0, 0], [a10, 0], [a11, b11]]), mode=GRAD, coord_type_in=1, coord_type_out=2)
    ctx.close("axial dipole", pure, same, rtol=0, atol=1e-13 * value * np.maximum(1, (6371.2 / coords[:, 2]) ** 3)[:, None] * (2 + np.abs(coords[:, 1:2]) / 57))


@REG.family(quick=1200, thorough=12000)
def models(ctx, rng):
    """ time dependent model in the dipole frame """
    axis = pole(rng)
    internal = bool(rng.integers(0, 2))
    tab = wrap(Table(rng, str(rng.choice(["constant", "mjd", "decimal"])), int(rng.integers(0, 6)), internal))
    model = DipoleSphericalHarmomicGeomagneticModel(tab.coeff, axis)
    tshape, xshape, full = gen.time_loc_shapes(rng)
    time = times_for(rng, [tab], tshape)
    time = np.where(np.isinf(time), np.nan, time)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, xshape, cin)
    kwargs = {"input_coordinate_system": cin, "output_coordinate_system": cout}
    low = high = -1
    if rng.random() < 0.3:
        low = kwargs["min_degree"] = int(rng.integers(-1, tab.top + 1))
    if rng.random() < 0.3:
        high = kwargs["max_degree"] = int(rng.integers(-1, tab.top + 2))
    scale = 1.0
    if rng.random() < 0.3:
        scale = kwargs["scale"] = [2.0, -1.0, 0.0, 0, np.array([1.0, 0.5, -2.0]), np.zeros(3), np.array([0.0, 1, 0]),
                                   np.array([2, 0, 1], "u1")][rng.choice(8, p=[0.3, 0.15, 0.08, 0.08, 0.15, 0.08, 0.08, 0.08])]
    ctx.note(pole=axis, time=time, coords=coords, kwargs=kwargs, validity=tab.validity)
    got = model.eval(time, coords, **kwargs)
    inside = (time >= tab.validity[0]) & (time <= tab.validity[1])
    coef, tol, _ = tab.lookup(np.where(inside, time, 0.0), low, high)
    top = int(round((np.sqrt(8 * coef.shape[-2] + 1) - 3) / 2))
    coef, tol = gen.leading(coef, full, 2), gen.leading(np.abs(np.asarray(coef, float)) + 1e15 * tol, full, 2)
    inside = gen.leading(inside, full)
    coords_ = gen.leading(coords, full, 1)
    want, _ = dip.field(coords_, coef, axis, cin, cout, top, internal)
    _, mag = dip.field(coords_, tol, axis, cin, cout, top, internal)
    rot = dip.rotation(LD(axis[0]), LD(axis[1]))
    dsph = np.asarray(geo.cart2sph(dip.to_dipole(geo.to_cart(coords_, cin), rot)), float)
    extra = 4 + np.abs(coords_[..., 1]) / 57 * (cin != 2) + abs(axis[1]) / 57
    atol = c08.tolerance(dsph, 1, mag, top, 3 * extra)[..., None] * np.abs(np.asarray(scale, float)) + 1e-300
    ctx.count("points_valid", int(inside.sum()))
    ctx.close("field", got, np.where(inside[..., None], -want * np.asarray(scale, LD), np.nan), rtol=0, atol=atol)
    # strength of the field does not depend on the output frame
    if full and not np.ndim(scale):
        other = model.eval(time, coords, **{**kwargs, "output_coordinate_system": (cout + 1) % 3})
        if other.size:
            ctx.close("strength", vnorm(other), vnorm(got), rtol=1e-13, atol=1e-13 * np.asarray(mag, float) * abs(scale) * 0.01)
    if abs(axis[0]) == 90 and axis[1] == 0 and axis[0] > 0:
        plain = SphericalHarmomicGeomagneticModel(tab.coeff).eval(time, coords, **kwargs)
        ctx.close("aligned axes", got, plain, rtol=0, atol=2 * atol)
        ctx.count("aligned axes")
