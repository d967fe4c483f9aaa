"""C15 model evaluation honours validity, degree limits and scaling options"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import cal, sh
from vk.checks import c08
from vk.checks.c13 import Table
from vk.checks.c14 import (
    CombinedOracle, ComposedOracle, arrangement, edge_times, near_node, wrap,
)
from eoxmagmod import load_model_shc, load_model_wmm, load_model_igrf
from eoxmagmod import data as edata
from eoxmagmod.magnetic_model.coefficients import (
    CombinedSHCoefficients, ComposedSHCoefficients, SparseSHCoefficientsTimeDependent,
    SparseSHCoefficientsConstant,
)
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel

REG = Registry(
    rule="a case is one model evaluation for a combination of time and location shapes, coordinate "
         "systems, degree limits and scales, judged at each point by the plain coefficient table, the "
         "defining series in extended precision and the validity interval",
)
LD = np.longdouble


def random_model(rng, internal, top=6):
    """ (oracle, coefficients, leaves) """
    kind = rng.integers(0, 4)
    if kind == 0:
        tab = wrap(Table(rng, str(rng.choice(["constant", "mjd", "decimal"])), int(rng.integers(0, top + 1)), internal, custom=0.25))
        return tab, tab.coeff, [tab]
    if kind == 1:
        items = arrangement(rng, internal)
        return ComposedOracle(items), ComposedSHCoefficients(*[i.coeff for i in items]), items
    num = gen.tail(rng, 2, 5, 20)
    names = ["constant", "mjd", "decimal"]
    if rng.random() < 0.6:
        names = names[:2] if rng.random() < 0.5 else names[::2]
    parts, leaves = [], []
    for _ in range(num):
        if kind == 3 and rng.random() < 0.4:
            items = arrangement(rng, internal)
            leaves += items
            parts.append((ComposedOracle(items), ComposedSHCoefficients(*[i.coeff for i in items])))
        else:
            start, end = sorted(rng.uniform(-2e4, 2e4, 2))
            start, end = start - 1000, end + 1000
            name = str(rng.choice(names))
            if name == "decimal":
                start, end = (float(cal.to_decimal_year(v)) for v in (start, end))
            tab = wrap(Table(rng, name, int(rng.integers(0, top + 1)), internal, validity=(float(start), float(end)), custom=0.4))
            leaves.append(tab)
            parts.append((tab, tab.coeff))
    return CombinedOracle([p[0] for p in parts]), CombinedSHCoefficients(*[p[1] for p in parts]), leaves


def times_for(rng, leaves, shape, nan=True):
    """ query times away from ambiguous steps """
    time = edge_times(rng, leaves, shape)
    time = np.where(near_node(leaves, time), time + 0.123, time)
    if nan and rng.random() < 0.2:
        time = np.where(rng.random(shape) < 0.1, rng.choice([np.nan, np.inf, -np.inf], shape), time)
    return time


def expected(oracle, time, coords, cin, cout, internal, low=-1, high=-1, scale=1.0):
    """ (values, tolerances) for the common shape """
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    safe = np.where(inside & np.isfinite(time), time, 0.0)
    coef, tol, _ = oracle.lookup(safe, low, high)
    top = int(round((np.sqrt(8 * coef.shape[-2] + 1) - 3) / 2))
    full = time.shape if time.ndim >= coords.ndim - 1 else coords.shape[:-1]
    coords_ = gen.leading(coords, full, 1)
    coef_ = gen.leading(coef, full, 2)
    tol_ = gen.leading(np.abs(np.asarray(coef, float)) + tol * 1e15, full, 2)
    inside_ = gen.leading(inside, full)
    _, field, _, _ = sh.field(coords_, coef_, cin, cout, top, internal)
    _, _, _, mag = sh.field(coords_, tol_, cin, cout, top, internal)
    scl = np.asarray(scale, LD)
    field = np.where(inside_[..., None], -field * scl, np.nan)
    atol = c08.tolerance(coords_, cin, mag, top)[..., None] * np.abs(np.asarray(scl, float)) + 1e-300
    return field, np.broadcast_to(atol, field.shape), inside_


@REG.family(quick=2500, thorough=25000)
def evaluation(ctx, rng):
    """ everything against the reference """
    internal = bool(rng.integers(0, 2))
    oracle, coeff, leaves = random_model(rng, internal)
    model = SphericalHarmomicGeomagneticModel(coeff)
    ctx.check(tuple(float(v) for v in model.validity) == tuple(oracle.validity), "model validity",
              got=model.validity, want=oracle.validity)
    ctx.check(int(model.degree) == oracle.top and int(model.min_degree) == oracle.low, "degree bounds")
    tshape, xshape, _ = gen.time_loc_shapes(rng)
    time = times_for(rng, leaves, tshape)
    # the constants may be valid at infinite times where a linear extrapolation is not
    time = np.where(np.isinf(time) & (len(leaves) > 0), np.nan, time)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, xshape, cin)
    kwargs = {}
    low = high = -1
    if rng.random() < 0.4:
        low = int(rng.integers(-1, oracle.top + 2))
        kwargs["min_degree"] = low
    if rng.random() < 0.4:
        high = int(rng.integers(-1, oracle.top + 2))
        kwargs["max_degree"] = high
    scale = 1.0
    if rng.random() < 0.4:
        scale = [-1.0, 2.5, 0.0, rng.normal(size=3), [1, 1, -1], rng.integers(0, 99, 3).astype(rng.choice(["u1", "u2", "u4", "i1", "i8"])),
                 np.uint16(rng.integers(1, 9)), np.zeros(3) if rng.random() < 0.3 else 3][rng.integers(0, 8)]
        kwargs["scale"] = scale
    if cin != 1 or rng.random() < 0.3:
        kwargs["input_coordinate_system"] = cin
    if cout != 1 or rng.random() < 0.3:
        kwargs["output_coordinate_system"] = cout
    ctx.note(time=time, coords=coords, kwargs=kwargs, validity=oracle.validity, type=type(coeff).__name__)
    got = model.eval(gen.relayout(rng, time)[1] if time.size else time,
                     gen.relayout(rng, coords)[1] if coords.size else coords, **kwargs)
    want, atol, inside = expected(oracle, time, coords, cin, cout, internal, low, high, scale)
    ctx.count("points_valid", int(np.sum(inside)))
    ctx.count("points_invalid", int(np.size(inside) - np.sum(inside)))
    ctx.count("empty_degree_range", int(0 <= high < max(low, oracle.low)))
    ctx.close("field", got, want, rtol=0, atol=atol)


@REG.family(quick=800, thorough=8000)
def routes(ctx, rng):
    """ a sum evaluated at once equals the sum of the parts """
    internal = bool(rng.integers(0, 2))
    num = int(rng.choice([2, 3, 5, 17, 20], p=[0.4, 0.25, 0.15, 0.1, 0.1]))
    tables = [wrap(Table(rng, str(rng.choice(["constant", "mjd", "decimal"])), int(rng.integers(0, 5)), internal,
                         validity=(1500.0, 2500.0), custom=0.3)) for _ in range(num)]
    whole = SphericalHarmomicGeomagneticModel(CombinedSHCoefficients(*[t.coeff for t in tables]))
    size = gen.tail(rng, 1, 6, 40)
    time = times_for(rng, tables, (size,), nan=False)
    start, end = whole.validity
    time = np.clip(time, start, end)
    time = np.where(near_node(tables, time), time + 0.123, time)
    coords = c08.points(rng, (size,), 1)
    low, high = int(rng.integers(-1, 4)), int(rng.integers(-1, 5))
    options = {"min_degree": low, "max_degree": high, "output_coordinate_system": int(rng.integers(0, 3))}
    ctx.note(time=time, coords=coords, num=num, kinds=[t.kind for t in tables], options=options)
    ctx.count(f"parts {num}")
    parts = [SphericalHarmomicGeomagneticModel(t.coeff).eval(time, coords, **options) for t in tables]
    want = np.sum(parts, axis=0)
    _, atol, _ = expected(CombinedOracle(tables), time, coords, 1, options["output_coordinate_system"], internal, low, high)
    slack = 1e-15 * num * np.sum(np.abs(parts), axis=(0, -1))[:, None] + atol * 2
    # cancellation between the parts and the mixed terms
    mags = sum(expected(t, time, coords, 1, 1, internal, low, high)[1] for t in tables)
    ctx.close("sum of parts", whole.eval(time, coords, **options), want, rtol=0, atol=slack + 2 * mags)
    # the degree ranges split the field
    cut = int(rng.integers(0, 5))
    lowp = whole.eval(time, coords, max_degree=cut)
    highp = whole.eval(time, coords, min_degree=cut + 1, max_degree=99)
    full = whole.eval(time, coords)
    mags_full = sum(expected(t, time, coords, 1, 1, internal)[1] for t in tables)
    ctx.close("split by degree", lowp + highp, full, rtol=0, atol=6 * mags_full)


_CACHE = {}
FILES = [
    ("IGRF12", load_model_igrf), ("IGRF14", load_model_shc), ("IGRF13", load_model_shc),
    ("WMM_2015", load_model_wmm), ("WMM_2020", load_model_wmm), ("WMM_2010", load_model_wmm), ("SIFM", load_model_shc), ("IGRF11", load_model_igrf),
    ("CHAOS_CORE_LATEST", load_model_shc),
]


def published(rng):
    """ published model """
    known = [(n, f) for n, f in FILES if hasattr(edata, n)]
    name, loader = known[rng.integers(len(known))]
    if name not in _CACHE:
        path = getattr(edata, name)
        try:
            model = loader(path)
        except ValueError:
            model = load_model_shc(path)
        _CACHE[name] = model
    return name, _CACHE[name]


@REG.family(quick=300, thorough=3000)
def published_models(ctx, rng):
    """ validity, scalars and arrays, degree limits of published models """
    name, model = published(rng)
    start, end = (float(v) for v in model.validity)
    lo, hi = max(start, -4e4), min(end, 2e4)
    shape = (int(rng.integers(2, 6)),)
    mode = rng.integers(0, 6, shape)
    time = np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3],
        [np.full(shape, lo), np.full(shape, hi), lo - 10.0 ** rng.uniform(-6, 3, shape), hi + 10.0 ** rng.uniform(-6, 3, shape)],
        default=rng.uniform(lo, hi, shape))
    coords = gen.sph(rng, shape, low=6300, high=9000)
    inside = (time >= start) & (time <= end)
    top = int(rng.integers(1, int(model.degree) + 1))
    low = int(rng.integers(0, top + 1))
    ctx.note(model=name, time=time, coords=coords, low=low, top=top)
    got = model.eval(time, coords, min_degree=low, max_degree=top)
    ctx.check(np.array_equal(np.isnan(got), np.broadcast_to(~inside[:, None], got.shape)),
              "NaN exactly outside of the validity", got=got, inside=inside)
    for i in range(shape[0]):
        ctx.equal("single point", model.eval(float(time[i]), coords[i], min_degree=low, max_degree=top), got[i])
        if inside[i]:
            coef, degree = model.coefficients(float(time[i]), min_degree=low, max_degree=top)
            _, want, _, mag = sh.field(coords[i], coef, 1, 1, int(degree), True)
            ctx.close("field of the coefficients", got[i], -want, rtol=0,
                      atol=4 * c08.tolerance(coords[i], 1, mag, int(degree))[..., None])
    ctx.count(f"model {name}")


@REG.family(quick=400, thorough=4000)
def constant_as_series(ctx, rng):
    """ a constant model equals a series of equal snapshots """
    nm = np.array([(n, m) for n in range(1, 4) for m in range(-n, n + 1)])
    values = rng.normal(size=len(nm)) * 100
    nodes = np.sort(rng.uniform(-1e4, 1e4, 4))
    const = SphericalHarmomicGeomagneticModel(SparseSHCoefficientsConstant(
        nm, values, validity_start=nodes[0], validity_end=nodes[-1]))
    order = int(rng.integers(1, 3))
    series = SphericalHarmomicGeomagneticModel(SparseSHCoefficientsTimeDependent(
        nm, np.repeat(values[:, None], 4, 1), nodes, spline_order=order))
    time = np.concatenate([nodes, rng.uniform(nodes[0] - 100, nodes[-1] + 100, 4)])
    coords = c08.points(rng, (8,), 1)
    ctx.note(nodes=nodes, time=time)
    ctx.close("series of equal snapshots", series.eval(time, coords), const.eval(time, coords), rtol=1e-12,
              atol=1e-12 * 3 * np.abs(values).sum() * np.maximum(1, (6371.2 / coords[:, 2:]) ** 5))
