"""C11 time-dependent evaluation equals interpolating first, then evaluating"""
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.ref import sh
from vk.checks import c08, c10
from vk.checks.c13 import Table, query_times, degree_range
from eoxmagmod._pymm import interp, shevaltemp, sheval, INTERP_C0, INTERP_C1
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel

REG = Registry(
    rule="a case is one evaluation of time-dependent coefficient sets for a batch of times and "
         "locations, judged at each point by interpolating every set in extended precision, "
         "adding the sets up and summing the defining series",
)
LD = np.longdouble
POT, GRAD, BOTH = 1, 2, 3


def coefficient_set(rng, top, shared):
    """ times, values, (n, m), spline order """
    order = int(rng.integers(1, 3))
    size = gen.tail(rng, order, 9, 80)
    times = c10.nodes(rng, size, False)
    if size > 1 and np.any(np.diff(times) < 1e-9 * max(1, np.abs(times).max())):
        times = np.cumsum(rng.uniform(0.5, 10, size)) - 20
    pairs = [(n, m) for n in range(0 if rng.random() < 0.2 else 1, top + 1) for m in range(-n, n + 1)]
    pairs = pairs or [(0, 0)]
    keep = rng.random()
    pick = [p for p in pairs if rng.random() < keep or rng.random() < 0.1] or [pairs[-1]]
    if rng.random() < 0.5:
        pick = [pick[i] for i in rng.permutation(len(pick))]
    nm = np.array(pick, dtype=rng.choice(["i4", "i2", ">i4"])).reshape(-1, 2)
    values = rng.normal(size=(len(pick), size)) * 10.0 ** rng.uniform(-2, 4)
    if rng.random() < 0.3:
        values *= 0.3 ** nm[:, :1].astype(float)
    return times, values, nm, order


def pick_times(rng, sets, shape):
    """ times on nodes, between nodes, outside, repeated and revisited """
    num = int(np.prod(shape, dtype=int))
    pool = np.concatenate([s[0] for s in sets])
    lo, hi = pool.min(), pool.max()
    span = max(hi - lo, 1.0)
    mode = rng.integers(0, 7, num)
    out = np.select(
        [mode == 0, mode == 1, mode < 4, mode == 4, mode == 5],
        [pool[rng.integers(0, pool.size, num)], np.nextafter(pool[rng.integers(0, pool.size, num)], -np.inf),
         rng.uniform(lo, hi, num), lo - span * rng.random(num), hi + span * rng.random(num)],
        default=pool[rng.integers(0, pool.size, num)] + span * 1e-6)
    kind = rng.integers(0, 4)
    if kind == 0 and num:
        out = rng.choice(out[:max(1, num // 3)], num)
    elif kind == 1:
        out = np.sort(out)
    elif kind == 2 and num:
        out = np.repeat(out, 2)[:num]
    return out.reshape(shape)


def dense(sets, times):
    """ coefficients at each of the times and their magnitudes """
    top = max(int(s[2][:, 0].max()) for s in sets)
    shape = np.shape(times) + (sh.size(top), 2)
    coef, mag = np.zeros(shape, LD), np.zeros(shape)
    for t0, values, nm, order in sets:
        idx = sh.index(nm[:, 0].astype(int), np.abs(nm[:, 1].astype(int)))
        part = (nm[:, 1] < 0).astype(int)
        for pos in np.ndindex(*np.shape(times)):
            t = times[pos]
            i = c10.search(t0, t, left=False)
            if order == 1:
                got = values[:, max(i, 0)].astype(LD)
                err = np.abs(got)
            else:
                i = min(max(i, 0), t0.size - 2)
                alpha = (LD(t) - LD(t0[i])) / (LD(t0[i + 1]) - LD(t0[i]))
                a, b = values[:, i].astype(LD), values[:, i + 1].astype(LD)
                got = a * (1 - alpha) + b * alpha
                err = (1 + np.abs(alpha)) * (np.abs(a) + np.abs(b))
            # a single set lists each of its terms once
            coef[pos + (idx, part)] += got
            mag[pos + (idx, part)] += np.asarray(err, float)
    return top, coef, mag


def evaluate(times, coords, sets, mode, **kwargs):
    """ always (potential, gradient) """
    res = shevaltemp(times, coords, sets, mode=mode, **kwargs)
    if mode == POT:
        return res, None
    if mode == GRAD:
        return None, res
    return res


def judge(ctx, got, times, coords, sets, full, cin, cout, internal, spot=1.0, sgrd=1.0):
    """ compare with the reference """
    times_, coords_ = gen.leading(times, full), gen.leading(coords, full, 1)
    top, coef, mag = dense(sets, times)
    coef_, mag_ = gen.leading(coef, full, 2), gen.leading(mag, full, 2)
    del times_
    want_pot, want_grad, _, _ = sh.field(coords_, coef_, cin, cout, top, internal)
    _, _, pmag, gmag = sh.field(coords_, mag_, cin, cout, top, internal)
    pot, grad = got
    if pot is not None:
        ctx.close("potential", pot, want_pot * LD(spot), rtol=0,
                  atol=abs(spot) * c08.tolerance(coords_, cin, pmag, top) + 1e-300)
    if grad is not None:
        scale = np.asarray(sgrd, LD)
        ctx.close("gradient", grad, want_grad * scale, rtol=0,
                  atol=c08.tolerance(coords_, cin, gmag, top)[..., None] * np.abs(np.asarray(scale, float)) + 1e-300)


@REG.family(quick=2500, thorough=25000)
def reference(ctx, rng):
    """ everything against the reference """
    num = int(rng.choice([1, 1, 2, 2, 3, 4, 7, 16]))
    top = gen.tail(rng, 0, 9, 40) if num < 5 else gen.tail(rng, 0, 4, 12)
    sets = [coefficient_set(rng, top, True) for _ in range(num)]
    kind = rng.integers(0, 4)
    if kind == 0:
        # all sets on one time grid
        ref = max(sets, key=lambda s: s[0].size)
        sets = [(ref[0], rng.normal(size=(s[1].shape[0], ref[0].size)), s[2], s[3]) for s in sets
                if ref[0].size >= s[3]]
    elif kind == 1 and num > 1:
        # disjoint terms
        seen, kept = set(), []
        for t, v, nm, order in sets:
            keep = [i for i, p in enumerate(nm.tolist()) if tuple(p) not in seen]
            seen.update(tuple(p) for p in nm.tolist())
            if keep:
                kept.append((t, v[keep], nm[keep], order))
        sets = kept
        ctx.count("disjoint_sets")
    tshape, xshape, full = gen.time_loc_shapes(rng)
    times = pick_times(rng, sets, tshape)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    internal = bool(rng.integers(0, 2))
    mode = int(rng.integers(1, 4))
    coords = c08.points(rng, xshape, cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": cout, "is_internal": internal}
    spot, sgrd = 1.0, 1.0
    if rng.random() < 0.3:
        spot = kwargs["scale_potential"] = float(rng.normal())
    if rng.random() < 0.3:
        sgrd = kwargs["scale_gradient"] = rng.normal(size=3) if rng.random() < 0.5 else -1.0
    ctx.note(num=len(sets), orders=[s[3] for s in sets], sizes=[s[0].size for s in sets],
             times=times, coords=coords, mode=mode, kwargs=kwargs)
    ctx.count(f"sets={len(sets)}")
    ctx.count(f"order1 sets", sum(s[3] == 1 for s in sets))
    ctx.count("distinct_times", int(np.unique(times).size))
    judge(ctx, evaluate(times, coords, sets, mode, **kwargs), times, coords, sets, full,
          cin, cout, internal, spot, sgrd)


@REG.family(quick=1500, thorough=15000)
def visiting_order(ctx, rng):
    """ the state kept between the times never shows """
    num = gen.tail(rng, 1, 5, 10)
    top = gen.tail(rng, 1, 6, 24)
    sets = [coefficient_set(rng, top, True) for _ in range(num)]
    size = gen.tail(rng, 2, 14, 150)
    times = pick_times(rng, sets, (size,))
    poison = rng.random(size) < 0.15
    times = np.where(poison, rng.choice([np.nan, np.inf, -np.inf], size), times)
    cin = int(rng.integers(0, 3))
    coords = c08.points(rng, (size,), cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": int(rng.integers(0, 3)), "is_internal": bool(rng.integers(0, 2))}
    ctx.note(times=times, orders=[s[3] for s in sets])
    pot, grad = evaluate(times, coords, sets, BOTH, **kwargs)
    fine = np.isfinite(times)
    perm = rng.permutation(size)
    pot2, grad2 = evaluate(times[perm], coords[perm], sets, BOTH, **kwargs)
    ctx.equal("potential order", pot2[fine[perm]], pot[perm][fine[perm]])
    ctx.equal("gradient order", grad2[fine[perm]], grad[perm][fine[perm]])
    for i in np.flatnonzero(fine):
        p, g = evaluate(float(times[i]), coords[i], sets, BOTH, **kwargs)
        ctx.equal("potential alone", p, pot[i])
        ctx.equal("gradient alone", g, grad[i])
    ctx.equal("potential only", evaluate(times, coords, sets, POT, **kwargs)[0][fine], pot[fine])
    ctx.equal("gradient only", evaluate(times, coords, sets, GRAD, **kwargs)[1][fine], grad[fine])
    ctx.count("non_finite_times_in_batch", int((~fine).sum()))
    ctx.key(times, coords)


@REG.family(quick=800, thorough=8000)
def package_routes(ctx, rng):
    """ interp followed by sheval gives the same field """
    num = gen.tail(rng, 1, 4, 8)
    top = gen.tail(rng, 1, 12, 40)
    sets = [coefficient_set(rng, top, True) for _ in range(num)]
    degree = max(int(s[2][:, 0].max()) for s in sets)
    size = gen.tail(rng, 1, 5, 40)
    times = pick_times(rng, sets, (size,))
    cin = int(rng.integers(0, 3))
    coords = c08.points(rng, (size,), cin)
    kwargs = {"coord_type_in": cin, "coord_type_out": int(rng.integers(0, 3)), "is_internal": bool(rng.integers(0, 2))}
    coef = np.zeros((size, sh.size(degree), 2))
    mag = np.zeros_like(coef)
    for t0, values, nm, order in sets:
        got = interp(times, t0, values, kind=(INTERP_C0 if order == 1 else INTERP_C1), extrapolate=True)
        idx = sh.index(nm[:, 0].astype(int), np.abs(nm[:, 1].astype(int)))
        part = (nm[:, 1] < 0).astype(int)
        coef[:, idx, part] += got
        mag[:, idx, part] += np.abs(got)
    ctx.note(times=times, coords=coords, kwargs=kwargs)
    pot, grad = evaluate(times, coords, sets, BOTH, **kwargs)
    want_pot, want_grad = sheval(coords, coef, mode=BOTH, **kwargs)
    _, _, pmag, gmag = sh.field(coords, mag, cin, kwargs["coord_type_out"], degree, kwargs["is_internal"])
    ctx.close("potential", pot, want_pot, rtol=0, atol=1e-15 * (degree + 3) * np.asarray(pmag, float))
    ctx.close("gradient", grad, want_grad, rtol=0, atol=1e-15 * (degree + 3) * np.asarray(gmag, float)[..., None])


@REG.family(quick=1500, thorough=15000)
def coefficient_objects(ctx, rng):
    """ models of coefficient objects: their coefficients at each time followed by sheval give the same field """
    internal = bool(rng.integers(0, 2))
    num = gen.tail(rng, 2, 4, 8) if rng.random() < 0.4 else 1
    kinds = ["constant", str(rng.choice(["mjd", "decimal"]))]
    limits = (-np.inf, np.inf) if rng.random() < 0.4 else None
    tables = [Table(rng, str(rng.choice(kinds)), gen.tail(rng, 0, 7, 20), internal, validity=limits, long=0.4)
              for _ in range(num)]
    coeff = tables[0].coeff if num == 1 else CombinedSHCoefficients(*[t.coeff for t in tables])
    model = SphericalHarmomicGeomagneticModel(coeff)
    size = gen.tail(rng, 1, 8, 100)
    times = query_times(rng, tables, (size,))
    if limits is None:
        start, end = coeff.validity
        if not start < end:
            raise SkipCase()  # no common validity
        times = np.clip(times, max(start, -1e6), min(end, 1e6))
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, (size,), cin)
    _, _, kwargs = degree_range(rng, tables)
    ctx.note(kinds=[(t.kind, t.order, t.times.size) for t in tables], times=times, coords=coords, kwargs=kwargs)
    got = model.eval(times, coords, cin, cout, **kwargs)
    coef, degree = coeff(times, **kwargs)
    want = -sheval(coords, coef, cin, cout, degree=int(degree), is_internal=internal)
    # the magnitudes are those of the coefficients interpolated separately
    mag = np.zeros((size, sh.size(int(degree)), 2))
    for tab in tables:
        part, _ = tab.coeff(times, **kwargs)
        span = np.abs(tab.values).max() if tab.kind != "constant" else 0.0
        mag[:, :part.shape[-2]] += np.abs(part) + span
    _, _, _, gmag = sh.field(coords, mag, cin, cout, int(degree), internal)
    ctx.count("kinds " + " ".join(sorted({t.kind for t in tables})))
    ctx.close("field", got, want, rtol=0, atol=1e-14 * (int(degree) + 3) * np.asarray(gmag, float)[..., None])
    ctx.key(times, coords)
