"""C09 potential and gradient describe one harmonic field in every frame"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import geo, sh
from vk.checks.c08 import coefficients, run, BOTH, GRAD, POT
from eoxmagmod import sheval, convert

REG = Registry(
    rule="a case is one field (coefficients, source type) probed around a batch of locations by "
         "finite differences, in other coordinate systems, or across a boundary; the coefficients "
         "and the field are non-zero",
    assumptions=["finite differences of 4th order with steps of 1e-3 of the field's length scale"],
)


def _field(rng):
    degree = int(rng.choice([0, 1, 2, 5, 10, 15, 16, 17, 18, 25, 40]))
    return degree, coefficients(rng, degree), bool(rng.integers(0, 2))


def _locations(rng, size):
    if rng.random() < 0.2:  # strongly attenuated (or amplified) fields
        return gen.sph(rng, size, low=6371.2 * 4, high=6371.2 * 2000)
    return gen.sph(rng, size, low=6371.2 * 0.8, high=6371.2 * 4)


def _magnitudes(sph, coef, degree, internal):
    _, _, pmag, gmag = sh.evaluate(np.zeros(1), np.zeros(1), sph[..., 2], np.abs(coef), degree, internal)
    return np.asarray(pmag, float), np.asarray(gmag, float)


def _cart(grad, coords, ctype):
    """ gradient in the local frame -> Cartesian """
    return np.asarray(np.einsum("...i,...ij->...j", grad.astype(geo.LD), geo.frame(coords, ctype)), float)


def _frame_coords(sph, ctype):
    """ coordinates naming the frame of the output """
    coords = np.asarray(geo.from_cart(geo.to_cart(sph, 1), ctype)).copy()
    if ctype != 2:
        coords[..., 1] = sph[..., 1]
    return coords


@REG.family(quick=800, thorough=10000)
def gradient_of_potential(ctx, rng):
    """ gradient = spatial derivatives of the potential """
    degree, coef, internal = _field(rng)
    sph = _locations(rng, (4,))
    cart = np.asarray(geo.to_cart(sph, 1), float)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = convert(cart, 2, cin)
    ctx.note(degree=degree, internal=internal, cart=cart, cin=cin, cout=cout)
    _, grad = run(coords, coef, BOTH, coord_type_in=cin, coord_type_out=cout, is_internal=internal)
    # the local frame is the one of the converted coordinates
    frame = convert(coords, cin, cout) if cout != 2 else cart
    got = _cart(grad, frame, cout)
    pmag, gmag = _magnitudes(sph, coef, degree, internal)
    step = sph[..., 2] * 1e-3 / (degree + 2)
    for axis in range(3):
        unit = np.zeros(3)
        unit[axis] = 1
        value = lambda k: sheval(cart + (k * step)[:, None] * unit, coef, mode=POT,
                                 coord_type_in=2, is_internal=internal)
        diff = (8 * (value(1) - value(-1)) - (value(2) - value(-2))) / (12 * step)
        ctx.close(f"derivative {axis}", got[..., axis], diff, rtol=0, atol=gmag * 1e-8 * (degree + 2) + 1e-300)


@REG.family(quick=600, thorough=8000)
def no_divergence_no_curl(ctx, rng):
    """ the field is harmonic """
    degree, coef, internal = _field(rng)
    sph = _locations(rng, (4,))
    cart = np.asarray(geo.to_cart(sph, 1), float)
    cin = int(rng.integers(0, 3))
    ctx.note(degree=degree, internal=internal, cart=cart, cin=cin)
    _, gmag = _magnitudes(sph, coef, degree, internal)
    step = sph[..., 2] * 1e-3 / (degree + 2)
    jac = np.zeros((4, 3, 3))
    for axis in range(3):
        unit = np.zeros(3)
        unit[axis] = 1
        value = lambda k: sheval(convert(cart + (k * step)[:, None] * unit, 2, cin), coef, mode=GRAD,
                                 coord_type_in=cin, coord_type_out=2, is_internal=internal)
        jac[:, :, axis] = (8 * (value(1) - value(-1)) - (value(2) - value(-2))) / (12 * step)[:, None]
    tol = gmag * (degree + 2) ** 2 / sph[..., 2] * 1e-8 + 1e-300
    ctx.close("divergence", np.trace(jac, axis1=1, axis2=2), np.zeros(4), rtol=0, atol=tol)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        ctx.close(f"curl {i}{j}", jac[:, i, j], jac[:, j, i], rtol=0, atol=tol)
    ctx.key(jac)


@REG.family(quick=1500, thorough=20000)
def frames(ctx, rng):
    """ the same physical field whatever the coordinates of the location are """
    degree, coef, internal = _field(rng)
    size = (3,)
    sph = _locations(rng, size)
    pmag, gmag = _magnitudes(sph, coef, degree, internal)
    base_pot, base = run(sph, coef, BOTH, coord_type_in=1, coord_type_out=1, is_internal=internal)
    base = _cart(base, sph, 1)
    ctx.note(degree=degree, internal=internal, sph=sph)
    cos = np.abs(np.cos(np.radians(sph[..., 0])))
    # rounding of the angles in degrees; terms neglected next to the poles
    rel = 1e-14 * (degree + 5) * (3 + np.abs(sph[..., 1]) / 57) \
        + np.where(cos < 2e-10, 2 * cos * (degree + 1) ** 2, 0)
    for cin in range(3):
        coords = convert(sph, 1, cin)
        for cout in range(3):
            pot, grad = run(coords, coef, BOTH, coord_type_in=cin, coord_type_out=cout, is_internal=internal)
            frame = coords if cin == cout else np.asarray(convert(coords, cin, cout))
            got = _cart(grad, frame, cout)
            tag = f"{cin}->{cout}"
            ctx.close(f"field {tag}", got, base, rtol=0, atol=(gmag * rel)[:, None] + 1e-300)
            ctx.close(f"potential {tag}", pot, base_pot, rtol=0, atol=pmag * rel + 1e-300)
            # separately requested quantities are the same
            kwargs = {"coord_type_in": cin, "coord_type_out": cout, "is_internal": internal}
            alone = sheval(coords, coef, mode=POT, **kwargs)
            ctx.close(f"potential alone {tag}", alone, pot, rtol=0, atol=pmag * 1e-15 * (degree + 5))
            alone = sheval(coords, coef, mode=GRAD, **kwargs)
            ctx.close(f"gradient alone {tag}", alone, grad, rtol=0,
                      atol=(gmag * 1e-15 * (degree + 5))[:, None])
    ctx.count("frame pairs", 9)


@REG.family(quick=2000, thorough=30000)
def continuity(ctx, rng):
    """ neighbouring points on the two sides of a boundary """
    degree, coef, internal = _field(rng)
    kind = ["date line", "zero meridian", "pole", "pole switch", "equator", "anywhere", "full turn"][rng.integers(0, 7)]
    rad = float(gen.radii(rng, None, 5500, 20000)) if rng.random() < 0.8 else \
        float(gen.loguniform(rng, 20000, 1e7))
    lat, lon = float(rng.uniform(-89, 89)), float(gen.longitudes(rng))
    sign = float(rng.choice([-1, 1]))
    eps = 10.0 ** rng.uniform(-13, -6)
    if kind == "date line":
        pair = [lat, 180 - eps], [lat, -180 + eps]
    elif kind == "zero meridian":
        pair = [lat, eps], [lat, rng.choice([0, 360]) - eps]
    elif kind == "pole":
        eps2 = eps * rng.choice([0, 1])
        pair = [sign * (90 - eps), lon], [sign * (90 - eps2), lon + (180 if eps2 else 0)]
    elif kind == "pole switch":
        colat = np.degrees(1e-10)
        eps = colat * 10.0 ** rng.uniform(-4, -1)
        pair = [sign * (90 - colat + eps), lon], [sign * (90 - colat - eps), lon]
    elif kind == "equator":
        pair = [eps, lon], [-eps * rng.choice([0, 1]), lon]
    elif kind == "full turn":
        pair = [lat, lon], [lat, lon + 360.0 * rng.integers(-2, 3)]
    else:
        pair = [lat, lon], [lat + eps, lon - eps]
    sph = np.array([[*p, rad] for p in pair])
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = convert(sph, 1, cin)
    ctx.note(kind=kind, sph=sph, degree=degree, internal=internal, cin=cin, cout=cout)
    pot, grad = run(coords, coef, BOTH, coord_type_in=cin, coord_type_out=cout, is_internal=internal)
    got = _cart(grad, coords if cin == cout else np.asarray(convert(coords, cin, cout)), cout)
    pmag, gmag = _magnitudes(sph, coef, degree, internal)
    cart = geo.to_cart(sph, 1)
    dist = float(np.sqrt(((cart[1] - cart[0]) ** 2).sum()))
    slack = 1e-14 * (degree + 5) * (3 + np.abs(sph[..., 1]).max() / 57)
    near = np.abs(np.abs(sph[..., 0]) - 90).min() < 1e-6
    slack += 3e-10 * (degree + 1) ** 2 if near else 0
    bound = gmag.max() * ((degree + 2) ** 2 * dist / rad * 2 + slack)
    ctx.close("field", got[1], got[0], rtol=0, atol=bound + 1e-300)
    bound = pmag.max() * ((degree + 2) * dist / rad * 2 + slack)
    ctx.close("potential", pot[1], pot[0], rtol=0, atol=bound + 1e-300)
    ctx.count("boundary " + kind)
