"""C12 2D Fourier series of coefficients"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import sh
from vk.checks import c08
from eoxmagmod._pymm import fourier2d, sheval2dfs, sheval

REG = Registry(
    rule="a case is one evaluation of 2D Fourier series for a batch of time pairs (and locations) "
         "judged by the defining sums in extended precision",
)
LD = np.longdouble
POT, GRAD, BOTH = 1, 2, 3


def series(rng, cshape):
    """ random coefficients, minimal degrees, scales """
    n1, n2 = (int(v) for v in rng.integers(0 if rng.random() < 0.05 else 1, 9, 2))
    kind = rng.integers(0, 5)
    if rng.random() < 0.02:
        # one long axis
        n1, n2 = [(n1, int(rng.integers(9, 80))), (int(rng.integers(9, 80)), n2)][rng.integers(2)]
    if kind == 0:
        min1, min2 = 0, 0
    elif kind == 1:
        min1, min2 = -(n1 // 2), -(n2 // 2)
    elif kind == 2:
        min1, min2 = int(rng.integers(-30, 30)), int(rng.integers(-30, 30))
    elif kind == 3:
        min1, min2 = int(rng.integers(-3, 3)), int(rng.integers(5, 60)) * int(rng.choice([-1, 1]))
    else:
        min1, min2 = int(rng.integers(5, 60)) * int(rng.choice([-1, 1])), int(rng.integers(-3, 3))
    coef = rng.normal(size=tuple(cshape) + (n1, n2, 2)) * 10.0 ** rng.uniform(-3, 3)
    if rng.random() < 0.3:
        # single term
        num = coef.size // 2
        flat = coef.reshape(num, 2)
        flat[np.arange(num) != rng.integers(0, max(1, num))] = 0
    scale = [float(v) for v in rng.choice([1.0, 2 * np.pi, 2 * np.pi / 24, -0.5, 3.0, 0.0], 2)]
    return coef, min1, min2, scale


def times(rng, shape):
    """ first or second argument """
    num = int(np.prod(shape, dtype=int))
    mode = rng.integers(0, 4, num)
    out = np.select([mode == 0, mode == 1, mode == 2],
                    [rng.uniform(0, 1, num), rng.uniform(-30, 30, num), rng.choice([0.0, 0.5, 12, 24, 1, -0.0], num)],
                    default=rng.normal(size=num) * (1 if rng.random() < 0.9 else 1e4))
    if num and rng.random() < 0.4:
        out = rng.choice(out[:max(1, num // 2)], num)
    return out.reshape(shape)


def reference(t1, t2, coef, min1, min2, scale):
    """ sums and their magnitudes: t1.shape + coef.shape[:-3] """
    n1, n2 = coef.shape[-3:-1]
    deg1, deg2 = np.arange(n1) + min1, np.arange(n2) + min2
    x = (np.asarray(t1, float) * scale[0]).astype(LD)[..., None, None] * deg1[:, None]
    y = (np.asarray(t2, float) * scale[1]).astype(LD)[..., None, None] * deg2[None, :]
    cos, sin = np.cos(x + y), np.sin(x + y)
    coef_ = coef.astype(LD)
    flat = coef_.reshape((int(np.prod(coef.shape[:-3])), n1 * n2, 2))
    num = int(np.prod(np.shape(t1)))
    c2, s2 = cos.reshape((num, n1 * n2)), sin.reshape((num, n1 * n2))
    val = np.einsum("tk,ck->tc", c2, flat[..., 0]) + np.einsum("tk,ck->tc", s2, flat[..., 1])
    shape = np.shape(t1) + coef.shape[:-3]
    big = np.abs(flat).sum(axis=(1, 2))
    arg = (np.abs(np.asarray(t1, float) * scale[0]) * (abs(min1) + n1)
           + np.abs(np.asarray(t2, float) * scale[1]) * (abs(min2) + n2))
    err = np.multiply.outer(
        np.asarray(1 + 2 * (abs(min1) + abs(min2) + n1 + n2) + arg, float).reshape(-1), np.asarray(big, float))
    return val.reshape(shape), 4e-16 * err.reshape(shape)


@REG.family(quick=4000, thorough=50000)
def coefficients(ctx, rng):
    """ fourier2d """
    coef, min1, min2, scale = series(rng, gen.shape(rng))
    shape = gen.shape(rng)
    t1, t2 = times(rng, shape), times(rng, shape)
    kwargs = {}
    for key, val, default in [("min_degree1", min1, 0), ("min_degree2", min2, 0),
                              ("scale1", scale[0], 1.0), ("scale2", scale[1], 1.0)]:
        if val != default or rng.random() < 0.5:
            kwargs[key] = val
    ctx.note(coef=coef, t1=t1, t2=t2, kwargs=kwargs)
    got = fourier2d(gen.relayout(rng, t1)[1], gen.relayout(rng, t2)[1],
                    gen.relayout(rng, coef)[1] if coef.size else coef, **kwargs)
    want, tol = reference(t1, t2, coef, min1, min2, scale)
    ctx.count("negative_degrees", int(min1 < 0) + int(min2 < 0))
    ctx.close("series", got, want, rtol=0, atol=tol + 1e-300)


def term_list(rng, top):
    """ (n, m) of the series """
    pairs = [(n, m) for n in range(0, top + 1) for m in range(-n, n + 1)]
    keep = [p for p in pairs if rng.random() < 0.5] or [pairs[-1]]
    return np.array([keep[i] for i in rng.permutation(len(keep))], dtype="i4")


def evaluate(t1, t2, coords, coef_set, mode, **kwargs):
    """ always (potential, gradient) """
    res = sheval2dfs(t1, t2, coords, coef_set, mode=mode, **kwargs)
    if mode == POT:
        return res, None
    if mode == GRAD:
        return None, res
    return res


@REG.family(quick=2500, thorough=25000)
def model(ctx, rng):
    """ sheval2dfs against the reference sums """
    nm = term_list(rng, int(rng.integers(0, 7)))
    coef, min1, min2, scale = series(rng, (len(nm),))
    full = gen.shape(rng)
    shapes = [full, full, full]
    for i in rng.permutation(3)[:rng.integers(0, 3)]:
        shapes[i] = full[:rng.integers(0, len(full) + 1)]
    common = max(shapes, key=len)
    t1, t2 = times(rng, shapes[0]), times(rng, shapes[1])
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    internal = bool(rng.integers(0, 2))
    mode = int(rng.integers(1, 4))
    coords = c08.points(rng, shapes[2], cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": cout, "is_internal": internal}
    spot, sgrd = 1.0, 1.0
    if rng.random() < 0.3:
        spot = kwargs["scale_potential"] = float(rng.normal())
    if rng.random() < 0.3:
        sgrd = kwargs["scale_gradient"] = rng.normal(size=3) if rng.random() < 0.5 else -1.0
    ctx.note(nm=nm, coef=coef, t1=t1, t2=t2, min1=min1, min2=min2, scale=scale, coords=coords,
             mode=mode, kwargs=kwargs, shapes=shapes)
    pot, grad = evaluate(gen.relayout(rng, t1)[1], gen.relayout(rng, t2)[1], coords,
                         (coef, nm, min1, min2, scale[0], scale[1]), mode, **kwargs)
    t1_, t2_ = gen.leading(t1, common), gen.leading(t2, common)
    coords_ = gen.leading(coords, common, 1)
    values, err = reference(t1_, t2_, coef, min1, min2, scale)
    top = int(nm[:, 0].max())
    dense = sh.dense(nm, values, top)
    mags = sh.dense(nm, np.abs(values) + err * 1e15, top)
    want_pot, want_grad, _, _ = sh.field(coords_, dense, cin, cout, top, internal)
    _, _, pmag, gmag = sh.field(coords_, mags, cin, cout, top, internal)
    ctx.count(f"time/location dimensions {len(shapes[0])}{len(shapes[1])}{len(shapes[2])}")
    if pot is not None:
        ctx.close("potential", pot, want_pot * LD(spot), rtol=0,
                  atol=abs(spot) * c08.tolerance(coords_, cin, pmag, top) + 1e-290)
    if grad is not None:
        scl = np.asarray(sgrd, LD)
        ctx.close("gradient", grad, want_grad * scl, rtol=0,
                  atol=c08.tolerance(coords_, cin, gmag, top)[..., None] * np.abs(np.asarray(scl, float)) + 1e-290)


@REG.family(quick=1500, thorough=15000)
def routes(ctx, rng):
    """ series first, spherical harmonics afterwards; order of the times """
    nm = term_list(rng, int(rng.integers(0, 6)))
    coef, min1, min2, scale = series(rng, (len(nm),))
    size = gen.tail(rng, 1, 9, 80)
    t1, t2 = times(rng, (size,)), times(rng, (size,))
    if rng.random() < 0.4:
        t1 = np.where(rng.random(size) < 0.5, t1[0], t1)
        t2 = np.where(rng.random(size) < 0.5, t2[0], t2)
    if rng.random() < 0.3:
        t1 = np.where(rng.random(size) < 0.3, np.nan, t1)
    if rng.random() < 0.3:
        t2 = np.where(rng.random(size) < 0.3, np.nan, t2)
    cin = int(rng.integers(0, 3))
    coords = c08.points(rng, (size,), cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": int(rng.integers(0, 3)), "is_internal": bool(rng.integers(0, 2))}
    coef_set = (coef, nm, min1, min2, scale[0], scale[1])
    ctx.note(nm=nm, coef=coef, t1=t1, t2=t2, min1=min1, min2=min2, coords=coords, kwargs=kwargs)
    pot, grad = evaluate(t1, t2, coords, coef_set, BOTH, **kwargs)
    values = fourier2d(t1, t2, coef, min1, min2, scale[0], scale[1])
    dense = sh.dense(nm, values, int(nm[:, 0].max()))
    want_pot, want_grad = sheval(coords, dense, mode=BOTH, **kwargs)
    fine = np.isfinite(t1) & np.isfinite(t2)
    mags = sh.dense(nm, np.abs(coef).sum(axis=(1, 2, 3)) + 0 * np.nan_to_num(t1)[:, None], int(nm[:, 0].max()))
    _, _, pmag, gmag = sh.field(coords, mags, cin, kwargs["coord_type_out"], None, kwargs["is_internal"])
    ctx.close("potential via series", pot[fine], want_pot[fine], rtol=0, atol=1e-13 * np.asarray(pmag, float)[fine])
    ctx.close("gradient via series", grad[fine], want_grad[fine], rtol=0, atol=1e-13 * np.asarray(gmag, float)[fine][:, None])
    for i in range(size):
        if fine[i]:
            p, g = evaluate(float(t1[i]), float(t2[i]), coords[i], coef_set, BOTH, **kwargs)
            ctx.equal("potential alone", p, pot[i])
            ctx.equal("gradient alone", g, grad[i])
    perm = rng.permutation(size)
    pot2 = evaluate(t1[perm], t2[perm], coords[perm], coef_set, POT, **kwargs)[0]
    grad2 = evaluate(t1[perm], t2[perm], coords[perm], coef_set, GRAD, **kwargs)[1]
    ctx.equal("potential order", pot2[fine[perm]], pot[perm][fine[perm]])
    ctx.equal("gradient order", grad2[fine[perm]], grad[perm][fine[perm]])
    ctx.count("nan_times_in_batch", int((~fine).sum()))
    ctx.key(t1, t2, coords)
