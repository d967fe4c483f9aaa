"""C10 interval search and time-series interpolation"""
import numpy as np
from vk.core import Registry
from vk import gen
from eoxmagmod._pymm import (
    bisect, interp, BISECT_SIDE_LEFT, BISECT_SIDE_RIGHT,
    INTERP_C0, INTERP_C1, INTERP_C1D1,
)

REG = Registry(
    rule="a case is one call with a node series and a batch of values (nodes, their floating point "
         "neighbours, values between and outside of the nodes, NaN, infinities) judged by a linear "
         "search and the interpolation formula in extended precision",
)
LD = np.longdouble
KINDS = {"C0": INTERP_C0, "C1": INTERP_C1, "C1D1": INTERP_C1D1}


def nodes(rng, size, duplicates):
    """ sorted node series """
    kind = rng.integers(0, 5)
    if kind == 0:
        out = np.arange(size) * float(rng.choice([1, 0.25, 7])) + float(rng.integers(-5, 5))
    elif kind == 1:
        out = np.cumsum(10.0 ** rng.uniform(-6, 4, size)) - 10 ** rng.uniform(-2, 4)
    elif kind == 2:
        out = 2000.0 + np.cumsum(rng.choice([0.5, 1, 5], size))
    elif kind == 3:
        base = rng.normal() * 1e4
        out = np.array([base])
        for _ in range(size - 1):
            out = np.append(out, np.nextafter(out[-1], np.inf) if rng.random() < 0.5
                            else out[-1] + rng.random())
        out = out[:size]
    else:
        out = np.sort(rng.normal(size=size) * 1e3)
    out = np.sort(np.asarray(out, float))
    if duplicates:
        for _ in range(int(rng.integers(0, 3))):
            if size > 4:
                i = int(rng.integers(1, size - 2))
                if i + 1 < size - 1:
                    out[i + 1] = out[i]
        out = np.sort(out)
    return out


def values(rng, series, size):
    """ values to be searched """
    num = int(np.prod(size, dtype=int))
    lo, hi = (series[0], series[-1]) if series.size else (0.0, 1.0)
    pick = series[rng.integers(0, series.size, num)] if series.size else rng.normal(size=num)
    mode = rng.integers(0, 9, num)
    span = max(hi - lo, 1e-3)
    out = np.select(
        [mode == 0, mode == 1, mode == 2, mode < 5, mode == 5, mode == 6, mode == 7],
        [pick, np.nextafter(pick, np.inf), np.nextafter(pick, -np.inf),
         rng.uniform(lo, hi, num), lo - span * rng.random(num), hi + span * rng.random(num),
         np.full(num, lo)], default=hi)
    special = rng.random(num) < 0.05
    out = np.where(special, rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0], num), out)
    return out.reshape(size)


def search(series, value, left):
    """ plain definition """
    if np.isnan(value) or not series.size:
        return -1
    below = np.flatnonzero((series < value) if left else (series <= value))
    return int(below[-1]) if below.size else -1


@REG.family(quick=5000, thorough=60000)
def interval_search(ctx, rng):
    """ bisect """
    size = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33]))
    if rng.random() < 0.06:
        size = int(gen.loguniform(rng, 30, 5000))
    series = nodes(rng, size, rng.random() < 0.3) if size else np.zeros(0)
    vals = values(rng, series, gen.shape(rng) if rng.random() > 0.005 else
                  (int(gen.loguniform(rng, 500, 5000)),))
    side = [None, BISECT_SIDE_LEFT, BISECT_SIDE_RIGHT][rng.integers(0, 3)]
    ctx.note(series=series, vals=vals, side=side)
    kind, series_ = gen.relayout(rng, series) if size else ("C", series)
    vkind, vals_ = gen.relayout(rng, vals)
    ctx.note(layouts=[kind, vkind])
    got = bisect(series_, vals_) if side is None else bisect(series_, vals_, side)
    left = side is None or side == BISECT_SIDE_LEFT
    want = np.array([search(series, v, left) for v in vals.ravel()], dtype=int).reshape(vals.shape)
    ctx.check(np.asarray(got).dtype.kind == "i", "integer indices expected")
    ctx.equal("interval index", np.asarray(got, dtype=int), want)
    if vals.size and size:
        ctx.count("below", int((want < 0).sum()))
        ctx.count("above", int((want == size - 1).sum()))
        ctx.count("on_node", int(np.isin(vals, series).sum()))


@REG.family(quick=5000, thorough=60000)
def interpolation(ctx, rng):
    """ all kinds """
    name = str(rng.choice(list(KINDS)))
    size = gen.tail(rng, 1 if name == "C0" else 2, 12, 2000)
    series = nodes(rng, size, rng.random() < 0.25)
    if size > 1 and (series[0] == series[1] or series[-1] == series[-2]):
        series = np.arange(size) * 1.5 - 3
    cshape = gen.shape(rng)
    coef = rng.normal(size=cshape + (size,)) * 10.0 ** rng.uniform(-3, 5)
    time = values(rng, series, gen.shape(rng))
    extra = bool(rng.integers(0, 2))
    if extra:
        time = np.where(np.isfinite(time), time, series[0])
    kwargs = {}
    if name != "C1" or rng.random() < 0.5:
        kwargs["kind"] = KINDS[name]
    if extra or rng.random() < 0.5:
        kwargs["extrapolate"] = extra
    ctx.note(kind=name, series=series, time=time, coef=coef, extrapolate=extra)
    got = interp(gen.relayout(rng, time)[1], gen.relayout(rng, series)[1],
                 gen.relayout(rng, coef)[1], **kwargs)
    want, tol = reference(name, time, series, coef, extra)
    ctx.count(f"{name} extrapolate={extra}")
    ctx.close("interpolated", got, want, rtol=0, atol=tol)
    # exact reproduction of the nodes
    if name != "C1D1" and np.all(np.diff(series) > 0):
        node = interp(series, series, coef, **kwargs)
        ctx.equal("node values", node, np.moveaxis(coef, -1, 0))
        ctx.count("node_values")


def reference(name, time, series, coef, extra):
    """ interpolated values and tolerances """
    shape = time.shape + coef.shape[:-1]
    want = np.full(shape, np.nan, dtype=LD)
    tol = np.zeros(shape)
    size = series.size
    for pos in np.ndindex(*time.shape):
        t = time[pos]
        idx = search(series, t, left=False)
        if idx < 0 and not extra:
            continue
        if name == "C0":
            want[pos] = coef[..., max(idx, 0)]
            continue
        if idx >= size - 1 and t != series[-1] and not extra:
            continue
        i = min(max(idx, 0), size - 2)
        t0, t1 = LD(series[i]), LD(series[i + 1])
        a, b = coef[..., i].astype(LD), coef[..., i + 1].astype(LD)
        if name == "C1":
            alpha = (LD(t) - t0) / (t1 - t0)
            want[pos] = a + (b - a) * alpha
            tol[pos] = 1e-15 * (1 + abs(float(alpha))) * np.asarray(np.abs(a) + np.abs(b), float)
        else:
            want[pos] = (b - a) / (t1 - t0)
            tol[pos] = 1e-15 * np.asarray((np.abs(a) + np.abs(b)) / (t1 - t0), float)
    return want, tol


@REG.family(quick=1000, thorough=10000)
def invariants(ctx, rng):
    """ continuity, monotonic index, shift and order independence """
    size = gen.tail(rng, 2, 40, 400)
    series = np.unique(nodes(rng, size, False))
    if series.size < 2:
        series = np.array([0.0, 1.0])
    time = np.sort(values(rng, series, (60,)))
    time = time[np.isfinite(time)]
    coef = rng.normal(size=(3, series.size))
    ctx.note(series=series, time=time)
    for side in (BISECT_SIDE_LEFT, BISECT_SIDE_RIGHT):
        idx = bisect(series, time, side)
        ctx.check(np.all(np.diff(idx) >= 0), "the index does not decrease with the value")
    perm = rng.permutation(time.size)
    for kind in (INTERP_C0, INTERP_C1, INTERP_C1D1):
        for extra in (False, True):
            full = interp(time, series, coef, kind=kind, extrapolate=extra)
            ctx.equal("visiting order", interp(time[perm], series, coef, kind=kind, extrapolate=extra), full[perm])
            single = interp(float(time[0]), series, coef, kind=kind, extrapolate=extra)
            ctx.equal("scalar time", single, full[0])
    ctx.key(series, time)


@REG.family(quick=300, thorough=3000)
def short_series(ctx, rng):
    """ too short series and mismatched series are rejected """
    kind = [INTERP_C0, INTERP_C1, INTERP_C1D1][rng.integers(0, 3)]
    need = 1 if kind == INTERP_C0 else 2
    size = int(rng.integers(0, need))
    ctx.raises("too short series", interp, rng.normal(size=gen.shape(rng)), np.zeros(size),
               np.zeros((3, size)), kind=kind, exceptions=(ValueError,))
    size = int(rng.integers(2, 6))
    ctx.raises("mismatched series", interp, rng.normal(size=gen.shape(rng)), np.arange(size),
               np.zeros((3, size + int(rng.choice([-1, 1, 2])))), kind=kind, exceptions=(ValueError,))
