"""C16 a composed model is the scaled sum of its components"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.checks import c08, c18
from vk.checks.c13 import Table
from vk.checks.c14 import near_node, wrap
from vk.checks.c15 import expected, published, random_model, times_for
from eoxmagmod import convert, vrot_sph2cart, vrot_sph2geod
from eoxmagmod.magnetic_model.model import (
    GeomagneticModel, SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.model_mio import MIOPrimaryGeomagneticModel

REG = Registry(
    rule="a case is one composition of component models of different kinds, scales and parameters "
         "evaluated for a combination of time and location shapes and coordinate systems and compared "
         "with the sum of references or of the separately evaluated components",
)
LD = np.longdouble


class Recorder(GeomagneticModel):
    """ user defined component recording what it has been called with """

    def __init__(self, validity, parameters, value):
        self._validity = validity
        self.parameters = parameters
        self.value = value
        self.calls = []

    @property
    def validity(self):
        """ validity """
        return self._validity

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        """ vectors proportional to the spherical coordinates """
        self.calls.append(dict(options))
        scale = options.pop("scale", None)
        sph = convert(location, input_coordinate_system, 1)
        result = np.array(sph) * self.value
        if output_coordinate_system == 2:
            result = vrot_sph2cart(result, sph[..., 0], sph[..., 1])
        elif output_coordinate_system == 0:
            result = vrot_sph2geod(result, convert(sph, 1, 0)[..., 0] - sph[..., 0])
        return result * (1.0 if scale is None else scale)


def scale_value(rng):
    """ component scale """
    return [1.0, -1.0, 0.0, 2.5, 1e-3, float(rng.normal())][rng.integers(0, 6)]


@REG.family(quick=1200, thorough=12000)
def reference_sum(ctx, rng):
    """ spherical harmonic components against the extended precision series """
    internal = [bool(v) for v in rng.integers(0, 2, int(rng.integers(1, 5)))]
    parts = [(random_model(rng, flag, top=4), flag, scale_value(rng)) for flag in internal]
    leaves = [leaf for (_, _, lvs), _, _ in parts for leaf in lvs]
    tshape, xshape, full = gen.time_loc_shapes(rng)
    time = times_for(rng, leaves, tshape)
    time = np.where(np.isinf(time), np.nan, time)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, xshape, cin)
    model = ComposedGeomagneticModel()
    options = [{} for _ in parts]
    for ((_, coeff, _), _, scale), opts in zip(parts, options):
        if rng.random() < 0.3:
            opts["max_degree"] = int(rng.integers(-1, 5))
        if rng.random() < 0.2:
            opts["min_degree"] = int(rng.integers(-1, 4))
        sub = SphericalHarmomicGeomagneticModel(coeff)
        model.push(sub, scale, **opts) if scale != 1.0 or rng.random() < 0.5 else model.push(sub, **opts)
    common = {}
    if rng.random() < 0.3:
        common["max_degree"] = int(rng.integers(-1, 5))
    final = 1.0
    kwargs = dict(common)
    if rng.random() < 0.4:
        final = kwargs["scale"] = [2.0, -1.0, [1, -1, 0.5], np.array([0.0, 1, 2])][rng.integers(0, 4)]
    if cin != 1 or rng.random() < 0.5:
        kwargs["input_coordinate_system"] = cin
    if cout != 1 or rng.random() < 0.5:
        kwargs["output_coordinate_system"] = cout
    ctx.note(time=time, coords=coords, kwargs=kwargs, options=options, scales=[p[2] for p in parts], internal=internal)
    got = model.eval(gen.relayout(rng, time)[1] if time.size else time,
                     gen.relayout(rng, coords)[1] if coords.size else coords, **kwargs)
    total, atol = np.zeros(full + (3,), LD), np.zeros(full + (3,))
    for ((oracle, _, _), flag, scale), opts in zip(parts, options):
        args = {**common, **opts}
        val, tol, _ = expected(oracle, time, coords, cin, cout, flag, args.get("min_degree", -1), args.get("max_degree", -1), scale)
        total = total + val
        atol = atol + 4 * tol
        # the sum is rotated once, an error in one component of the vector spreads
        atol = np.broadcast_to(atol.max(axis=-1, keepdims=True) if atol.size else atol, atol.shape).copy()
    fin = np.abs(np.asarray(final, float))
    ctx.count(f"components {len(parts)}")
    ctx.count("points_valid", int(np.isfinite(np.asarray(total, float)[..., 0]).sum()))
    ctx.close("sum", got, total * np.asarray(final, LD), rtol=0, atol=atol * fin + 1e-300)
    start = max(p[0][0].validity[0] for p in parts)
    end = min(p[0][0].validity[1] for p in parts)
    want = (start, end) if start <= end else (-np.inf, -np.inf)
    ctx.check(tuple(float(v) for v in model.validity) == tuple(float(v) for v in want), "intersection of validities",
              got=model.validity, want=want)


def component(rng):
    """ (model, kind, bound of the inner radius) """
    kind = int(rng.integers(0, 5))
    if kind == 0:
        return published(rng)[1], "published"
    if kind == 1:
        tab = wrap(Table(rng, "constant", int(rng.integers(0, 5)), bool(rng.integers(0, 2))))
        return SphericalHarmomicGeomagneticModel(tab.coeff), "constant"
    if kind == 2:
        tab = wrap(Table(rng, "constant", int(rng.integers(0, 5)), bool(rng.integers(0, 2))))
        return DipoleSphericalHarmomicGeomagneticModel(tab.coeff, (float(rng.uniform(60, 90)), float(rng.uniform(-180, 180)))), "dipole"
    product = c18.Product(rng)
    if kind == 3:
        return product.object("secondary"), "mio secondary"
    return MIOPrimaryGeomagneticModel(product.object("below"), product.object("above"), height=110.5), "mio primary"


@REG.family(quick=1200, thorough=12000)
def separate_sum(ctx, rng):
    """ components of all kinds, nested compositions, separately evaluated """
    num = gen.tail(rng, 1, 5, 12)
    model = ComposedGeomagneticModel()
    flat = []
    kinds = []
    for _ in range(num):
        sub, kind = component(rng)
        scale = scale_value(rng)
        params = {}
        if rng.random() < 0.25:
            params["f107"] = float(rng.uniform(60, 200))
        if rng.random() < 0.25:
            params["max_degree"] = int(rng.integers(1, 6))
        if rng.random() < 0.2:
            # nested
            inner = ComposedGeomagneticModel()
            inner.push(sub, 2.0)
            second, kind2 = component(rng)
            inner.push(second)
            kinds.append([kind, kind2])
            model.push(inner, scale, **params)
            flat += [(sub, 2.0 * scale, params), (second, scale, params)]
        else:
            kinds.append(kind)
            model.push(sub, scale, **params)
            flat.append((sub, scale, params))
        if rng.random() < 0.1:
            model.push(sub, -scale, **params)
            flat.append((sub, -scale, params))
    tshape, xshape, full = gen.time_loc_shapes(rng)
    time = np.asarray(rng.uniform(-3000, 7000, tshape))
    if rng.random() < 0.2:
        time = np.where(rng.random(tshape) < 0.3, rng.choice([np.nan, 1e6, -1e6], tshape), time)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    sph = gen.sph(rng, xshape, low=6200, high=9000)
    sph[..., 2] = np.where(np.abs(sph[..., 2] - 6481.7) < 1e-3, 6500, sph[..., 2])
    coords = sph
    if cin != 1:
        coords = np.asarray(convert(sph, 1, cin)) if sph.size else sph
    kwargs = {"input_coordinate_system": cin, "output_coordinate_system": cout}
    if rng.random() < 0.6:
        shp = full[:rng.integers(0, len(full) + 1)]
        kwargs["f107"] = rng.uniform(60, 200, shp) if shp else 120.0
    if rng.random() < 0.3:
        kwargs["max_degree"] = int(rng.integers(1, 8))
    final = 1.0
    if rng.random() < 0.3:
        final = [2.0, -0.5, [1.0, 2.0, -1.0]][rng.integers(0, 3)]
    ctx.note(kinds=kinds, time=time, coords=coords, kwargs=kwargs, final=final, scales=[f[1] for f in flat])
    got = model.eval(time, coords, **kwargs, **({"scale": final} if np.ndim(final) or final != 1.0 else {}))
    total, big = np.zeros(full + (3,)), np.zeros(full)
    for sub, scale, params in flat:
        val = sub.eval(time, coords, **{**kwargs, **params}) * scale
        total = total + val
        big = big + np.linalg.norm(val, axis=-1)
    again = model.eval(time, coords, **kwargs)
    ctx.count("components", len(flat))
    for kind in kinds:
        for item in kind if isinstance(kind, list) else [kind]:
            ctx.count(f"kind {item}")
    ctx.close("sum", got, total * np.asarray(final), rtol=0,
              atol=1e-10 * np.nan_to_num(big)[..., None] * np.abs(np.asarray(final)) + 1e-11)
    ctx.close("repeated", again * np.asarray(final), got, rtol=1e-14)
    # validity and parameters
    start, end = max(f[0].validity[0] for f in flat), min(f[0].validity[1] for f in flat)
    if start <= end:
        ctx.check(tuple(model.validity) == (start, end), "validity", got=model.validity, want=(start, end))
    else:
        ctx.check(tuple(model.validity) == (-np.inf, -np.inf), "empty validity", got=model.validity)
    names = set().union(*(f[0].parameters for f in flat)) | {"time", "location"}
    ctx.check(set(model.parameters) == names and len(model.parameters) == len(names), "parameters",
              got=model.parameters, want=names)


@REG.family(quick=600, thorough=6000)
def options_forwarded(ctx, rng):
    """ what the components are called with; components are not changed """
    num = gen.tail(rng, 0, 5, 12)
    parts = []
    for i in range(num):
        start, end = sorted(rng.uniform(-100, 100, 2))
        if rng.random() < 0.3:
            start = -np.inf
        if rng.random() < 0.3:
            end = np.inf
        names = tuple(["time", "location"] + [n for n in ("f107", "subsolar_point", "other") if rng.random() < 0.3])
        parts.append(Recorder((start, end), names, float(rng.normal())))
    sole = [dict(vars(p)) for p in parts]
    if rng.random() < 0.5:
        model = ComposedGeomagneticModel(*parts)
        setup = [(p, 1.0, {}) for p in parts]
    else:
        model = ComposedGeomagneticModel()
        setup = [(p, scale_value(rng), {k: int(rng.integers(0, 9)) for k in ("a", "b", "c") if rng.random() < 0.4}) for p in parts]
        for item, scale, params in setup:
            model.push(item, scale, **params)
    other = ComposedGeomagneticModel(*parts[::-1])
    time = rng.uniform(-100, 100, 3)
    if rng.random() < 0.3:
        time[1] = np.nan
    sph = gen.sph(rng, (3,))
    common = {k: int(rng.integers(10, 19)) for k in ("a", "b", "d") if rng.random() < 0.5}
    kept = dict(common)
    final = [None, 3.0, np.array([1.0, 2, 3])][rng.integers(0, 3)]
    opts = dict(common) if final is None else {**common, "scale": final}
    got = model.eval(time, sph, **opts)
    want = np.zeros((3, 3))
    ctx.note(options=opts, time=time, setup=[(p.value, s, k) for p, s, k in setup])
    for item, scale, params in setup:
        ctx.check(item.calls, "component evaluated")
        for call in item.calls:
            ctx.check({k: v for k, v in call.items() if k != "scale"} == {**common, **params},
                      "component options", got=item.calls, want={**common, **params})
        want = want + sph * item.value * scale
    if not setup:
        want = np.where(np.isnan(time)[:, None], np.nan, want)
    want = want * (1.0 if final is None else final)
    ctx.close("sum", got, want, rtol=1e-13, atol=1e-13 * 7e4 * 10)
    ctx.check(common == kept, "options unchanged")
    for item, before in zip(parts, sole):
        now = dict(vars(item))
        now.pop("calls"), before.pop("calls")
        ctx.check(now == before, "component unchanged", got=now, want=before)
    start = max([p.validity[0] for p in parts], default=-np.inf)
    end = min([p.validity[1] for p in parts], default=np.inf)
    exp = (start, end) if start <= end else (-np.inf, -np.inf)
    for item in (model, other):
        ctx.check(tuple(item.validity) == exp, "validity does not depend on the order", got=item.validity, want=exp)
        ctx.check(set(item.parameters) == {"time", "location"}.union(*(p.parameters for p in parts)), "parameters", got=item.parameters)
    ctx.key(time, sph, repr(opts))


@REG.family(quick=300, thorough=3000)
def growth(ctx, rng):
    """ pushing more components changes the result by the added component only,
    models sharing components are independent """
    tabs = [wrap(Table(rng, str(rng.choice(["constant", "mjd"])), 3, True, validity=(-1e4, 1e4))) for _ in range(4)]
    subs = [SphericalHarmomicGeomagneticModel(t.coeff) for t in tabs]
    time = rng.uniform(-9e3, 9e3, 4)
    time = np.where(near_node(tabs, time), time + 0.123, time)
    coords = gen.sph(rng, (4,), low=6300)
    alone = [s.eval(time, coords) for s in subs]
    first, second = ComposedGeomagneticModel(subs[0]), ComposedGeomagneticModel(subs[0], subs[1])
    nested = ComposedGeomagneticModel(first)
    total = alone[0].copy()
    ctx.note(time=time, coords=coords)
    for sub, val in zip(subs[1:], alone[1:]):
        scale = scale_value(rng)
        first.push(sub, scale)
        total = total + scale * val
        tol = 1e-12 * np.nansum(np.abs(alone), axis=(0, -1))[:, None] * 4
        ctx.close("grown model", first.eval(time, coords), total, rtol=0, atol=tol)
        ctx.close("nested grown model", nested.eval(time, coords), total, rtol=0, atol=tol)
        ctx.close("the other model", second.eval(time, coords), alone[0] + alone[1], rtol=0, atol=tol)
    for sub, val in zip(subs, alone):
        ctx.equal("component result", sub.eval(time, coords), val)
    # geographic frame: magnitudes do not depend on it
    geod = first.eval(time, coords, output_coordinate_system=0)
    cart = first.eval(time, coords, output_coordinate_system=2)
    size = np.linalg.norm(first.eval(time, coords), axis=-1)
    ctx.close("magnitude geodetic", np.linalg.norm(geod, axis=-1), size, rtol=1e-13)
    ctx.close("magnitude Cartesian", np.linalg.norm(cart, axis=-1), size, rtol=1e-13)
