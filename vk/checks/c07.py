"""C07 Legendre, radial and longitude series equal their definitions"""
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.ref import geo, sh
from eoxmagmod import legendre, relradpow, loncossin, spharpot, sphargrd

REG = Registry(
    rule="a case is one batch of arguments and a degree whose evaluated series is compared, "
         "element by element, with the definition in extended precision",
    assumptions=["numpy longdouble has more precision than double"],
)


def _degree(rng, high):
    kind = rng.integers(0, 5)
    if kind == 0:
        return int(rng.integers(0, 4))
    if kind == 1:
        return int(rng.choice([15, 16, 17, 18]))     # switch of the algorithm
    if kind < 4:
        return int(rng.integers(0, 26))
    return int(rng.integers(20, high))


@REG.family(quick=600, thorough=6000)
def legendre_functions(ctx, rng):
    """ P and dP/dlat """
    degree = _degree(rng, 140 if ctx.thorough else 70)
    size = gen.shape(rng) if rng.random() < 0.5 else (gen.tail(rng, 1, 20, 300),)
    lat = np.asarray(gen.latitudes(rng, size), float)
    ctx.note(degree=degree, lat=lat)
    p, d = legendre(lat, degree)
    want_p, want_d, _ = sh.legendre(lat, degree)
    n, m = sh.nm_arrays(degree)
    ctx.close("P", p, want_p, rtol=0, atol=2e-14 * (n + 1))
    ctx.close("dP", d, want_d, rtol=0, atol=2e-14 * (n + 1.0) ** 2)
    # relative accuracy of the tiny high order values next to the poles
    away = (np.abs(np.abs(lat) - 90) > 1e-3)[..., None] & (np.abs(want_p) > 1e-250)
    away &= (n == m)
    sel = np.broadcast_to(away, want_p.shape)
    # an error of the latitude in radians is amplified in the vicinity of the poles
    cond = (1 + 1 / np.maximum(np.asarray(geo.sincosd(lat)[1], float), 1e-6))[..., None]
    rtol = np.broadcast_to(1e-15 * (n + 4) * cond, want_p.shape)[sel]
    ctx.close("sectoral P", p[sel], want_p[sel], rtol=rtol)
    ctx.count(f"degree {degree // 10 * 10}+")


@REG.family(quick=30, thorough=120)
def legendre_high_degree(ctx, rng):
    """ degrees beyond the largest published models """
    degree = int(rng.integers(400, 1500))
    lat = np.asarray(gen.latitudes(rng, (3,)), float)
    ctx.note(degree=degree, lat=lat)
    p, d = legendre(lat, degree)
    n, m = sh.nm_arrays(degree)
    ctx.check(np.isfinite(p).all() and np.isfinite(d).all(), "not finite")
    # addition theorem: the Schmidt functions of one degree are unit vectors
    sums = np.add.reduceat(p**2, sh.index(np.arange(degree + 1), 0), axis=-1)
    ctx.close("addition theorem", sums, np.ones(sums.shape), rtol=0, atol=1e-8)
    total = np.add.reduceat(d**2, sh.index(np.arange(degree + 1), 0), axis=-1)
    nn = np.arange(degree + 1)
    ctx.close("derivatives", total, np.broadcast_to(nn * (nn + 1) / 2, total.shape),
              rtol=1e-7, atol=1e-9)


@REG.family(quick=1500, thorough=20000)
def radial_powers(ctx, rng):
    """ relative radius powers """
    degree = _degree(rng, 150)
    size = gen.shape(rng) if rng.random() < 0.5 else (gen.tail(rng, 1, 20, 300),)
    radius = np.asarray(gen.loguniform(rng, 1e-1, 1e7, size)) if rng.random() < 0.3 else \
        np.asarray(gen.radii(rng, size))
    options = {}
    ref = 6371.2
    if rng.random() < 0.6:
        ref = float(rng.choice([6371.2, 6378.137, 1.0, 1e-3, 3389.5])) \
            if rng.random() < 0.5 else float(gen.loguniform(rng, 1e-2, 1e5))
        options["reference_radius"] = ref
    internal = bool(rng.integers(0, 2))
    if not internal or rng.random() < 0.5:
        options["is_internal"] = internal
    ctx.note(degree=degree, radius=radius, **options)
    got = relradpow(radius, degree, **options)
    i = np.arange(degree + 1)
    ratio = radius.astype(geo.LD)[..., None] / geo.LD(ref)
    want = ratio ** (-(i + 2)) if internal else ratio ** (i - 1)
    big = want > 1.7e308
    want = np.where(big, np.inf, want)
    border = (want > 1e307) & (want < np.inf) | big & (ratio ** (0 * i) > 0) & (got < np.inf) & (got > 1e307)
    got, want = np.where(border, 0, got), np.where(border, 0, want)
    ctx.close("power", got, want, rtol=1e-15 * (degree + 4), atol=1e-300)


@REG.family(quick=1500, thorough=20000)
def longitude_series(ctx, rng):
    """ cosines and sines of the multiples """
    degree = _degree(rng, 200)
    size = gen.shape(rng) if rng.random() < 0.5 else (gen.tail(rng, 1, 20, 300),)
    lon = np.asarray(gen.longitudes(rng, size), float)
    if rng.random() < 0.2:
        # many turns
        lon = lon + 360.0 * np.round(rng.choice([-1, 1], lon.shape) * 10.0**rng.uniform(0, 6, lon.shape))
        ctx.count("many turns")
    options = {}
    if rng.random() < 0.7:
        options["fast_alg"] = bool(rng.integers(0, 2))
    ctx.note(degree=degree, lon=lon, **options)
    got = loncossin(lon, degree, **options)
    c, s = sh.cossin(lon, degree)
    # rounding of the angle itself in radians included
    atol = 1e-15 * (degree + 4) * (2 + np.abs(lon)[..., None, None] / 57)
    ctx.close("cos, sin", got, np.stack([c, s], -1), rtol=0, atol=atol)


def _arrays(rng, degree, consistent):
    """ arguments of the sums with random leading shapes """
    full = gen.shape(rng)
    cut = lambda: full[:rng.integers(0, len(full) + 1)]
    extra = lambda: degree + int(rng.choice([0, 0, 0, 1, 3]))
    lat_shape = cut()
    lat = np.asarray(gen.latitudes(rng, lat_shape), float)
    shapes = [lat_shape]
    if consistent:
        d1 = extra()
        leg = legendre(lat, d1)
        lon = np.asarray(gen.longitudes(rng, cut()), float)
        rad = np.asarray(gen.radii(rng, cut()), float)
        shapes += [lon.shape, rad.shape]
        lcs = loncossin(lon, extra())
        internal = bool(rng.integers(0, 2))
        rrp = relradpow(rad, extra(), is_internal=internal)
        coef = rng.normal(size=cut() + (sh.size(extra()), 2))
        p, d = leg
    else:
        lat = np.clip(lat, -89.9, 89.9)
        p = rng.normal(size=cut() + (sh.size(extra()),))
        d = rng.normal(size=cut() + (sh.size(extra()),))
        lcs = rng.normal(size=cut() + (extra() + 1, 2))
        rrp = rng.normal(size=cut() + (extra() + 1,))
        rad = np.asarray(gen.radii(rng, cut()), float)
        coef = rng.normal(size=cut() + (sh.size(extra()), 2))
        internal = bool(rng.integers(0, 2))
        lon = None
    return full, lat, lon, rad, coef, p, d, rrp, lcs, internal


def _max_degree(sizes, lengths):
    degs = [int((np.sqrt(8 * s + 1) - 3) / 2 + 1e-9) for s in sizes]
    return min(degs + [n - 1 for n in lengths])


def _common(arrays):
    shapes = [np.shape(a)[:np.ndim(a) - tail] for a, tail in arrays]
    return max(shapes, key=len)


@REG.family(quick=2500, thorough=30000)
def potential_sum(ctx, rng):
    """ spharpot is the spherical harmonic sum of the given series """
    degree = gen.tail(rng, 0, 8, 40)
    _, _, _, rad, coef, p, _, rrp, lcs, _ = _arrays(rng, degree, rng.random() < 0.5)
    top = _max_degree([coef.shape[-2], p.shape[-1]], [rrp.shape[-1], lcs.shape[-2]])
    ask = int(rng.choice([-1, -5, 0, degree, top, top + 3, max(0, degree - 1)]))
    use = top if ask < 0 else min(ask, top)
    kwargs = {} if ask == -1 and rng.random() < 0.5 else {"degree": ask}
    ctx.note(degree=ask, shapes=[np.shape(a) for a in (rad, coef, p, rrp, lcs)])
    got = spharpot(rad, coef, p, rrp, lcs, **kwargs)
    full = _common([(rad, 0), (coef, 2), (p, 1), (rrp, 1), (lcs, 2)])
    n, m = sh.nm_arrays(use)
    num = sh.size(use)
    lead = lambda a, tail: gen.leading(a, full, tail).astype(geo.LD)
    c, q, r, l = lead(coef, 2), lead(p, 1), lead(rrp, 1), lead(lcs, 2)
    # the sine of zero order is not a term of the series
    term = c[..., :num, 0] * np.where(m > 0, l[..., m, 0], 1)
    term = term + np.where(m > 0, c[..., :num, 1] * l[..., m, 1], 0)
    total = term * q[..., :num] * r[..., n]
    if num and not np.allclose(np.asarray(p[..., 0], float), 1):
        # the zero degree function is one by definition
        total[..., 0] = c[..., 0, 0] * r[..., 0]
    want = lead(rad, 0) * total.sum(-1)
    mag = np.abs(lead(rad, 0)) * (np.abs(term * q[..., :num] * r[..., n]).sum(-1) + np.abs(c[..., 0, 0] * r[..., 0]))
    mag += np.abs(lead(rad, 0)) * (np.abs(c[..., :num, :]).sum(-1) * np.abs(q[..., :num] * r[..., n])).sum(-1)
    ctx.close("potential", got, want, rtol=0, atol=np.asarray(mag, float) * 1e-14)


@REG.family(quick=2500, thorough=30000)
def gradient_sum(ctx, rng):
    """ sphargrd is the spherical harmonic sum of the given series """
    degree = gen.tail(rng, 0, 8, 40)
    consistent = rng.random() < 0.5
    _, lat, lon, rad, coef, p, d, rrp, lcs, internal = _arrays(rng, degree, consistent)
    top = _max_degree([coef.shape[-2], p.shape[-1], d.shape[-1]], [rrp.shape[-1], lcs.shape[-2]])
    ask = int(rng.choice([-1, -5, 0, degree, top, top + 3, max(0, degree - 1)]))
    use = top if ask < 0 else min(ask, top)
    kwargs = {} if ask == -1 and rng.random() < 0.5 else {"degree": ask}
    if not internal or rng.random() < 0.5:
        kwargs["is_internal"] = internal
    ctx.note(lat=lat, consistent=consistent, shapes=[np.shape(a) for a in (lat, coef, p, d, rrp, lcs)], **kwargs)
    got = sphargrd(lat, coef, p, d, rrp, lcs, **kwargs)
    full = _common([(lat, 0), (coef, 2), (p, 1), (d, 1), (rrp, 1), (lcs, 2)])
    n, m = sh.nm_arrays(use)
    num = sh.size(use)
    lead = lambda a, tail: gen.leading(a, full, tail).astype(geo.LD)
    c, q, dq, r, l = lead(coef, 2), lead(p, 1), lead(d, 1), lead(rrp, 1), lead(lcs, 2)
    sin, cos = geo.sincosd(lead(lat, 0))
    t0 = c[..., :num, 0] * np.where(m > 0, l[..., m, 0], 1) + np.where(m > 0, c[..., :num, 1] * l[..., m, 1], 0)
    t1 = m * (c[..., :num, 1] * l[..., m, 0] - c[..., :num, 0] * l[..., m, 1])
    rr = r[..., n]
    qq = q[..., :num].copy()
    qq[..., 0] = 1
    dd = dq[..., :num].copy()
    dd[..., 0] = 0
    if consistent:
        _, _, east = sh.legendre(lead(lat, 0), use)
    else:
        east = qq / cos[..., None]
    dr = -(n + 1) if internal else n
    want = np.stack([(rr * dd * t0).sum(-1), (rr * east * t1).sum(-1), (rr * qq * t0 * dr).sum(-1)], -1)
    a0 = np.abs(c[..., :num, :]).sum(-1) * (1 + np.abs(l[..., m, :]).sum(-1)) * np.abs(rr)
    # terms of order > 1 are neglected closer to the pole than 1e-10 rad
    pole = np.where(np.abs(cos) < 1.01e-10, np.abs(cos) / 1e-13, 0) * (a0 * m * (n + 1.0) ** 2).sum(-1)
    mag = np.stack([
        (a0 * (np.abs(dd) + consistent)).sum(-1),
        (a0 * m * (np.abs(east) + consistent)).sum(-1) + pole,
        (a0 * (np.abs(qq) + consistent) * (n + 1)).sum(-1)], -1)
    ctx.close("gradient", got, want, rtol=0, atol=np.asarray(mag, float) * 1e-13 + 1e-300)
