"""C08 spherical harmonic evaluation equals the defining series"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import geo, sh
from eoxmagmod import sheval, load_model_shc, convert
from eoxmagmod import data as edata

REG = Registry(
    rule="a case is one evaluation of a batch of locations whose potential and gradient are "
         "compared with the series summed in extended precision",
    assumptions=["numpy longdouble has more precision than double"],
)
POT, GRAD, BOTH = 1, 2, 3


def points(rng, size, ctype, low=6371.2 * 0.6, high=6371.2 * 12):
    """ locations of the coordinate type """
    coords = gen.sph(rng, size, low=low, high=high)
    if rng.random() < 0.04:
        # many turns
        coords[..., 1] += 360.0 * np.round(rng.choice([-1, 1], size) * 10.0**rng.uniform(0, 5, size))
    if ctype == 0:
        return np.asarray(convert(coords, 1, 0)) if rng.random() < 0.5 else \
            coords - [0, 0, 6371.2 if low > 3000 else 0]
    if ctype == 2:
        cart = np.asarray(geo.to_cart(coords, 1), float)
        pick = rng.integers(0, 10, size)[..., None]
        axis = np.asarray([[0, 0, 1.0], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [-1, -0.0, 0]])[rng.integers(0, 6, size)]
        return np.where(pick == 0, axis * coords[..., 2:], cart)
    return coords


def tolerance(coords, ctype, mag, degree, extra=1.0):
    """ rounding error bounds of a sum of terms of the given magnitude """
    sph = geo.cart2sph(geo.to_cart(coords, ctype)) if ctype != 1 else np.asarray(coords, geo.LD)
    cos = np.abs(np.asarray(geo.sincosd(sph[..., 0])[1], float))
    lon = np.abs(np.asarray(coords[..., 1], float)) if ctype != 2 else 0.0
    mag = np.asarray(mag, float)
    base = (1e-15 * (degree + 10) * (3 + lon / 57)) * extra * mag
    # terms of order > 1 are neglected closer to the pole than 1e-10 rad
    return base + np.where(cos < 1.01e-10, 1.5 * cos * (degree + 1) ** 2, 0) * mag


def run(coords, coef, mode, **kwargs):
    """ evaluation giving always (potential, gradient) """
    res = sheval(coords, coef, mode=mode, **kwargs)
    if mode == POT:
        return res, None
    if mode == GRAD:
        return None, res
    return res


def coefficients(rng, degree, extra=0):
    """ random or realistic spectrum """
    num = sh.size(degree) + extra
    coef = rng.normal(size=(num, 2))
    kind = rng.integers(0, 4)
    n, _ = sh.nm_arrays(degree)
    if kind == 0:
        coef[:len(n)] *= 3e4 * 0.3 ** n[:, None]
    elif kind == 1:
        coef *= rng.random((num, 1)) < 0.15
    elif kind == 2:
        keep = rng.integers(0, num)
        coef[np.arange(num) != keep] = 0
    return coef


def _degree(rng, thorough):
    kind = rng.integers(0, 6)
    if kind == 0:
        return int(rng.integers(0, 3))
    if kind == 1:
        return int(rng.choice([15, 16, 17, 18]))
    if kind < 5:
        return int(rng.integers(0, 22))
    return int(rng.integers(20, 90 if thorough else 50))


@REG.family(quick=2500, thorough=30000)
def series(ctx, rng):
    """ all coordinate systems, modes, source types, degrees """
    degree = _degree(rng, ctx.thorough)
    coef = coefficients(rng, degree, extra=int(rng.integers(0, degree + 2)) if rng.random() < 0.2 else 0)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    internal = bool(rng.integers(0, 2))
    mode = int(rng.integers(1, 4))
    ask = int(rng.choice([-1, -1, degree, degree + 5, max(degree - 1, 0), 0, degree // 2]))
    use = degree if ask < 0 else min(ask, degree)
    size = (gen.tail(rng, 1, 6, 200),) if rng.random() < 0.7 else gen.shape(rng)
    coords = points(rng, size, cin)
    spot = float(rng.choice([1.0, -1.0, 0.0, 2.5]))
    sgrd = [1.0, -1.0, 3.0, rng.normal(size=3), [1, 0, -2], 0.5 * np.ones(1)[0]][rng.integers(0, 6)]
    kwargs = {"coord_type_in": cin, "coord_type_out": cout}
    if ask != -1 or rng.random() < 0.5:
        kwargs["degree"] = ask
    if not internal or rng.random() < 0.5:
        kwargs["is_internal"] = internal
    if rng.random() < 0.5:
        kwargs["scale_potential"] = spot
    else:
        spot = 1.0
    if rng.random() < 0.5:
        kwargs["scale_gradient"] = sgrd
    else:
        sgrd = 1.0
    ctx.note(top=degree, mode=mode, coords=coords, coef_size=len(coef), kwargs=kwargs)
    pot, grad = run(coords, coef, mode, **kwargs)
    want_pot, want_grad, pmag, gmag = sh.field(coords, coef, cin, cout, use, internal)
    ctx.count(f"frames {cin}->{cout}")
    ctx.count("internal" if internal else "external")
    if pot is not None:
        ctx.close("potential", pot, want_pot * geo.LD(spot), rtol=0,
                  atol=abs(spot) * tolerance(coords, cin, pmag, use) + 1e-300)
    if grad is not None:
        scale = np.asarray(sgrd, geo.LD)
        atol = tolerance(coords, cin, gmag, use)[..., None] * np.abs(np.asarray(scale, float))
        ctx.close("gradient", grad, want_grad * scale, rtol=0, atol=atol + 1e-300)


@REG.family(quick=500, thorough=6000)
def stacked_coefficients(ctx, rng):
    """ different coefficients for each of the locations """
    degree = gen.tail(rng, 0, 12, 40)
    full = gen.shape(rng, empty=False, scalar=False)
    cut = rng.integers(0, len(full) + 1)
    cshape, xshape = (full, full[:cut]) if rng.random() < 0.5 else (full[:cut], full)
    coef = rng.normal(size=cshape + (sh.size(degree), 2))
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    internal = bool(rng.integers(0, 2))
    coords = points(rng, xshape, cin)
    mode = int(rng.integers(1, 4))
    ctx.note(degree=degree, coef_shape=coef.shape, coords=coords, mode=mode, cin=cin, cout=cout)
    pot, grad = run(coords, coef, mode, coord_type_in=cin, coord_type_out=cout, is_internal=internal)
    coords_, coef_ = gen.leading(coords, full, 1), gen.leading(coef, full, 2)
    want_pot, want_grad, pmag, gmag = sh.field(coords_, coef_, cin, cout, degree, internal)
    if pot is not None:
        ctx.close("potential", pot, want_pot, rtol=0, atol=tolerance(coords_, cin, pmag, degree))
    if grad is not None:
        ctx.close("gradient", grad, want_grad, rtol=0, atol=tolerance(coords_, cin, gmag, degree)[..., None])


@REG.family(quick=800, thorough=10000)
def linearity(ctx, rng):
    """ linear in the coefficients, unaffected by the unused terms """
    degree = gen.tail(rng, 1, 30, 80)
    c1, c2 = coefficients(rng, degree), coefficients(rng, degree)
    a, b = rng.normal(size=2) * 10.0 ** rng.uniform(-3, 3, 2)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    internal = bool(rng.integers(0, 2))
    coords = points(rng, (4,), cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": cout, "is_internal": internal}
    ctx.note(degree=degree, coords=coords, a=a, b=b, kwargs=kwargs)
    p1, g1 = run(coords, c1, BOTH, **kwargs)
    p2, g2 = run(coords, c2, BOTH, **kwargs)
    p3, g3 = run(coords, a * c1 + b * c2, BOTH, **kwargs)
    _, _, pmag, gmag = sh.field(coords, np.abs(a * c1) + np.abs(b * c2), cin, cout, degree, internal)
    ctx.close("potential", p3, a * p1 + b * p2, rtol=0, atol=np.asarray(pmag * 1e-14 * (degree + 5), float))
    ctx.close("gradient", g3, a * g1 + b * g2, rtol=0,
              atol=np.asarray(gmag * 1e-14 * (degree + 5), float)[..., None])
    # what is above of the requested degree does not matter
    low = int(rng.integers(0, degree))
    poison = c1.copy()
    poison[sh.size(low):] = rng.choice([np.nan, np.inf, 1e300])
    pc, gc = run(coords, c1[:sh.size(low)], BOTH, **kwargs)
    pp, gp = run(coords, poison, BOTH, degree=low, **kwargs)
    ctx.equal("truncated potential", pp, pc)
    ctx.equal("truncated gradient", gp, gc)
    # scale factors are applied once per component
    scale = rng.normal(size=3)
    _, gs = run(coords, c1, GRAD, scale_gradient=scale, **kwargs)
    ctx.close("scaled gradient", gs, g1 * scale, rtol=1e-14,
              atol=1e-15 * (degree + 5) * np.asarray(gmag, float)[..., None] * np.abs(scale))


_MODELS = {}


def _model(name):
    if name not in _MODELS:
        model = load_model_shc(getattr(edata, name))
        time = model.validity[0] if np.isfinite(model.validity[0]) else 0.0
        _MODELS[name] = model.coefficients(time + 10.0)[0]
    return _MODELS[name]


@REG.family(quick=40, thorough=400)
def published_models(ctx, rng):
    """ published models up to their full degree """
    name, top = [("IGRF14", 13), ("CHAOS_STATIC_LATEST", 110), ("LCS1", 185), ("SIFM", 70)][rng.integers(0, 4)]
    coef = _model(name)
    degree = int(rng.integers(1, top + 1))
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = points(rng, (3,), cin, low=6360, high=7500)
    ctx.note(model=name, degree=degree, coords=coords, cin=cin, cout=cout)
    pot, grad = run(coords, coef, BOTH, degree=degree, coord_type_in=cin, coord_type_out=cout)
    want_pot, want_grad, pmag, gmag = sh.field(coords, coef, cin, cout, min(degree, top), True)
    ctx.close("potential", pot, want_pot, rtol=0, atol=tolerance(coords, cin, pmag, degree))
    ctx.close("gradient", grad, want_grad, rtol=0, atol=tolerance(coords, cin, gmag, degree)[..., None])
