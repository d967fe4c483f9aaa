"""C04 batch results equal point by point results for every array layout"""
import numpy as np
from vk.core import Registry
from vk import calls, gen
from vk.checks import c18
from vk.checks.c14 import near_node
from vk.checks.c15 import published, random_model, times_for
import eoxmagmod
from eoxmagmod.magnetic_model.model import (
    DipoleSphericalHarmomicGeomagneticModel, SphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.model_mio import MIOPrimaryGeomagneticModel

REG = Registry(
    rule="a case is one vectorised call with generated number of dimensions, memory layouts, data types "
         "and combination of scalars and arrays, compared element by element with calls for single points",
    env={"OMP_NUM_THREADS": "1"},
)
MANY = [(2, 1, 2, 3), (1, 2, 1, 2, 2), (2, 0, 3), (1, 1, 1, 1, 1, 1), (0, 0), (9,), (17,), (4, 5), (2, 2, 2, 2, 2, 2)]


def any_shape(rng):
    """ array shape """
    return MANY[rng.integers(len(MANY))] if rng.random() < 0.35 else gen.shape(rng)


def pick(rng):
    """ function, the costly ones less frequently """
    names = list(calls.BUILDERS)
    return names[rng.integers(len(names))]


def compare(ctx, call, got, want, tag):
    """ same up to the last digits """
    got, want = call.outputs(got), call.outputs(want)
    ctx.check(len(got) == len(want), "number of outputs")
    for num, (one, other) in enumerate(zip(got, want)):
        near(ctx, f"{tag} {call.name} output {num}", one, other)


def near(ctx, name, one, other):
    """ equal up to the last digits of the largest value """
    one, other = np.asarray(one), np.asarray(other)
    if "eval_mlt" in name and one.shape == other.shape:
        # the pole is refreshed if the time changes by more than a day
        turn = (one - other + 12) % 24 - 12
        ctx.close(name, np.where(np.isnan(one) & np.isnan(other), np.nan, turn),
                  np.where(np.isnan(other), np.nan, 0.0), atol=5e-5)
        return
    fin = np.abs(other[np.isfinite(other)]) if other.dtype.kind == "f" else np.zeros(0)
    ctx.close(name, one, other, rtol=1e-14, atol=1e-14 * float(fin.max()) if fin.size else 0.0)


def points(rng, shape, limit):
    """ all or some of the elements """
    num = int(np.prod(shape))
    picked = np.arange(num) if num <= limit else np.append(rng.choice(num - 1, limit - 1, replace=False), num - 1)
    return [tuple(int(v) for v in np.unravel_index(i, shape)) for i in picked]


@REG.family(quick=6000, thorough=60000)
def native_points(ctx, rng):
    """ compiled functions, element by element """
    _native_points(ctx, rng, any_shape(rng))


def huge_shape(rng):
    """ thousands of elements """
    num = int(gen.loguniform(rng, 1000, 20000) if rng.random() < 0.88 else gen.loguniform(rng, 20000, 140000))
    if rng.random() < 0.7:
        return (num,)
    width = int(rng.integers(2, 100))
    return (num // width + 1, width) if rng.random() < 0.5 else (width, num // width + 1)


@REG.family(quick=150, thorough=3000)
def large_batches(ctx, rng):
    """ thousands of elements, a sample of them compared """
    shape = huge_shape(rng)
    ctx.count("elements over 4096" if np.prod(shape) > 4096 else "elements up to 4096")
    [_native_points, _python_points, _model_points][rng.choice(3, p=[0.3, 0.2, 0.5])](ctx, rng, shape)


def _native_points(ctx, rng, shape):
    call = calls.build(rng, pick(rng), shape)
    args, lead = call.broadcasted(rng)
    shape = call.shape
    ctx.note(function=call.name, shape=shape, lead=lead, args=args)
    given = {k: gen.relayout(rng, v)[1] if k in lead and np.size(v) else v for k, v in args.items()}
    ctx.journal(function=call.name, shape=shape)
    whole = call.outputs(call.func(*given.values()))
    ctx.count("function " + call.name)
    ctx.count(f"ndim {len(shape)}")
    if len(set(lead.values())) > 1:
        ctx.count("mixed_dimensions")
    if 0 in shape:
        ctx.count("empty")
    for out, tail in zip(whole, call.out_tails):
        ctx.check(out.shape[:out.ndim - tail] == shape and out.ndim == len(shape) + tail,
                  "the result has the common shape", got=out.shape, want=shape)
        ctx.check(out.dtype == (np.dtype(np.intp) if call.name == "bisect" else np.dtype(float)), "result type")
    for index in points(rng, shape, 40):
        single = call.outputs(call.func(*call.item(args, lead, index).values()))
        compare(ctx, call, tuple(out[index] for out in whole), single, "element of")
    ctx.key(call.name, shape, sorted(lead.items()))


def retype(rng, value):
    """ (data type, values converted to it and back) """
    value = np.asarray(value)
    kinds = ["f4", "f2", ">f8", ">f4", "i8", "i4", "i2", "i1", "u1", "u4", ">i4", ">i2", "bool"]
    kind = str(rng.choice(kinds))
    if kind == "bool":
        typed = value > np.median(value) if value.size else value.astype(bool)
    elif kind == "f2":
        typed = np.clip(value, -6e4, 6e4).astype("f2")
    elif "i" in kind or "u" in kind:
        info = np.iinfo(np.dtype(kind))
        typed = np.clip(np.round(value), max(info.min, -2**31), min(info.max, 2**31)).astype(kind)
    else:
        typed = value.astype(kind)
    return kind, typed, np.asarray(typed, dtype=float)


@REG.family(quick=4000, thorough=40000)
def native_layouts(ctx, rng):
    """ every array in another memory layout or of another type """
    call = calls.build(rng, pick(rng), any_shape(rng))
    plain, other, kinds = dict(call.args), dict(call.args), {}
    typed = rng.random() < 0.5
    for name in list(call.tails) + list(call.structural):
        value = np.array(call.args[name], dtype=float)
        if typed and name in call.tails and not (name == "time" and call.name == "eval_qdlatlon"):
            kinds[name], other[name], value = retype(rng, value)
        else:
            kinds[name] = "f8"
            other[name] = value
        plain[name] = np.array(value, dtype=float)
        if other[name].size:
            kind, other[name] = gen.relayout(rng, other[name])
            kinds[name] += " " + str(kind)
            ctx.count("layout " + str(kind))
    for name, value in call.args.items():
        # arrays inside of the coefficient sets
        if name == "coef_set":
            other[name] = tuple(_layout(rng, v) for v in value)
        elif name == "coef_set_list":
            other[name] = [tuple(_layout(rng, v) for v in item) for item in value]
        elif name == "scale_gradient":
            other[name] = gen.relayout(rng, np.asarray(value, float))[1]
    if not typed and rng.random() < 0.2:
        # scalar numpy or Python objects
        other = {k: float(v) if k in call.tails and np.ndim(v) == 0 and rng.random() < 0.7 else v for k, v in other.items()}
    ctx.note(function=call.name, kinds=kinds, args=plain)
    for key, kind in kinds.items():
        ctx.count("type " + kind.split()[0])
        del key
    got = call.func(*other.values())
    want = call.func(*plain.values())
    compare(ctx, call, got, want, "layout of")
    if rng.random() < 0.3 and len(other) > 1:
        # named arguments
        # (the fourth parameter of spharpot has an undocumented name)
        cut = int(rng.integers(4 if call.name == "spharpot" else 0, len(other)))
        names = list(other)
        got = call.func(*[other[n] for n in names[:cut]], **{n: other[n] for n in names[cut:]})
        compare(ctx, call, got, want, "named arguments of")
    ctx.key(call.name, sorted(kinds.items()))


def _layout(rng, value):
    if isinstance(value, np.ndarray) and value.size:
        return gen.relayout(rng, value, ["C", "F", "reversed", "strided", "unaligned", "swapped", "readonly", "moved", "offset"])[1]
    return value


PYTHON = {}


def python(func):
    """ register builder of (call, shape, arguments {name: (value, tail)}, outputs tail) """
    PYTHON[func.__name__] = func
    return func


@python
def vnorm(rng, shape):
    """ norm """
    return eoxmagmod.vnorm, {"arr": (rng.normal(0, 100, (*shape, 3)), 1)}, {}


@python
def vincdecnorm(rng, shape):
    """ inclination ... """
    return eoxmagmod.vincdecnorm, {"arr": (rng.normal(0, 100, (*shape, 3)), 1)}, {}


@python
def vrotate(rng, shape):
    """ rotation """
    ct_in, ct_out = (int(v) for v in rng.integers(0, 3, 2))
    coord_in = calls._pos(rng, shape, ct_in)
    coord_out = np.asarray(eoxmagmod.convert(coord_in, ct_in, ct_out))
    return (lambda arr, one, two: eoxmagmod.vrotate(arr, one, two, ct_in, ct_out)), {
        "arr": (rng.normal(0, 100, (*shape, 3)), 1), "coord_in": (coord_in, 1), "coord_out": (coord_out, 1)}, {}


@python
def times(rng, shape):
    """ conversions """
    name = str(rng.choice(["decimal_year_to_mjd2000", "mjd2000_to_decimal_year", "mjd2000_to_year_fraction"]))
    value = rng.uniform(1800, 2200, shape) if name.startswith("d") else rng.uniform(-7e4, 7e4, shape)
    return getattr(eoxmagmod, name), {"time": (value, 0)}, {}


@python
def sunpos(rng, shape):
    """ Sun """
    func = eoxmagmod.sunpos if rng.random() < 0.6 else eoxmagmod.sunpos_original
    args = {"time_mjd2k": (rng.uniform(-3e4, 3e4, shape), 0), "lat": (gen.latitudes(rng, shape), 0),
            "lon": (gen.longitudes(rng, shape), 0)}
    return func, args, {}


@python
def magnetic_universal_time(rng, shape):
    """ MUT """
    pole = float(rng.uniform(70, 90)), float(rng.uniform(-180, 180))
    args = {"mjd2000": (rng.uniform(-3e4, 3e4, shape), 0)}
    if rng.random() < 0.5:
        args["lat_sol"] = (rng.uniform(-23, 23, shape), 0)
        args["lon_sol"] = (rng.uniform(-180, 180, shape), 0)
    return (lambda t, *sol: eoxmagmod.mjd2000_to_magnetic_universal_time(t, *pole, *sol)), args, {}


@python
def convert_to_dipole(rng, shape):
    """ dipole coordinates """
    ct_in = int(rng.integers(0, 3))
    pole = float(rng.uniform(60, 90)), float(rng.uniform(-180, 180))
    return (lambda x: eoxmagmod.convert_to_dipole(x, *pole, ct_in)), {"coords": (calls._pos(rng, shape, ct_in), 1)}, {"loose": 1}


@python
def vrot_from_dipole(rng, shape):
    """ dipole vectors """
    pole = float(rng.uniform(60, 90)), float(rng.uniform(-180, 180))
    ct_out = int(rng.integers(0, 3))
    return (lambda v, a, b, c, d: eoxmagmod.vrot_from_dipole(v, *pole, a, b, c, d, ct_out)), {
        "vectors": (rng.normal(0, 100, (*shape, 3)), 1), "lat_dipole": (gen.latitudes(rng, shape), 0),
        "lon_dipole": (gen.longitudes(rng, shape), 0), "lat_out": (gen.latitudes(rng, shape), 0),
        "lon_out": (gen.longitudes(rng, shape), 0)}, {"loose": 1}


@python
def sheval_dipole(rng, shape):
    """ series in the dipole frame """
    ct_in, ct_out = (int(v) for v in rng.integers(0, 3, 2))
    mode = int(rng.integers(1, 4))
    pole = float(rng.uniform(60, 90)), float(rng.uniform(-180, 180))
    degree = gen.tail(rng, 1, 6, 30)
    coef = rng.normal(0, 100, ((degree + 1) * (degree + 2) // 2, 2))
    pos = calls._pos(rng, shape, ct_in)
    return (lambda x: eoxmagmod.sheval_dipole(
        x, coef, *pole, coord_type_in=ct_in, coord_type_out=ct_out, mode=mode)), {"arr_x": (pos, 1)}, {"loose": 1}


@python
def quasi_dipole(rng, shape):
    """ QD coordinates, MLT and sub-solar point """
    shape = shape if len(shape) < 2 else (int(np.prod(shape)),)
    args = {"gclat": (rng.uniform(-89, 89, shape), 0), "gclon": (rng.uniform(-180, 180, shape), 0),
            "gcrad": (rng.uniform(6371.2, 7400, shape), 0), "time": (rng.choice([1995.5, 2010.0, 2022.25], shape), 0)}
    kind = rng.integers(0, 4)
    if kind == 0:
        return eoxmagmod.eval_qdlatlon, args, {}
    if kind == 1:
        return eoxmagmod.eval_qdlatlon_with_base_vectors, args, {}
    if kind == 2:
        return eoxmagmod.eval_mlt, {"qdlon": args["gclon"], "time": (rng.uniform(-3e4, 3e4, shape), 0)}, {"tag": "eval_mlt"}
    return eoxmagmod.eval_subsol, {"time": (rng.uniform(-3e4, 3e4, shape), 0)}, {}


@REG.family(quick=2500, thorough=25000)
def python_points(ctx, rng):
    """ Python functions, element by element """
    _python_points(ctx, rng, any_shape(rng))


def _python_points(ctx, rng, shape):
    name = list(PYTHON)[rng.integers(len(PYTHON))]
    func, args, opts = PYTHON[name](rng, shape)
    args = {k: (np.asarray(v, float), t) for k, (v, t) in args.items()}
    first, tail = next(iter(args.values()))
    shape = first.shape[:first.ndim - tail]
    ctx.note(function=name, shape=shape, args={k: v for k, (v, _) in args.items()})
    kinds = None if name != "magnetic_universal_time" else [
        "C", "F", "reversed", "strided", "unaligned", "swapped", "readonly", "moved", "offset"]
    given = [gen.relayout(rng, v, kinds)[1] if v.size else v for v, _ in args.values()]
    whole = func(*given)
    ctx.count("function " + name)
    single_out = not isinstance(whole, tuple)
    whole = (whole,) if single_out else whole
    for index in points(rng, shape, 30):
        single = func(*[np.array(v[index]) for v, _ in args.values()])
        single = (single,) if single_out else single
        ctx.check(len(single) == len(whole), "number of outputs")
        for num, (one, other) in enumerate(zip(whole, single)):
            one, other = np.asarray(one)[index], np.asarray(other)
            if opts.get("loose"):
                # rotations by matrix products may be summed in different order
                scale = max(np.abs(other).max(), np.abs(first[index]).max()) if other.size else 0
                ctx.close(f"{name} output {num}", _turn(name, one), _turn(name, other), rtol=1e-12, atol=1e-11 * scale)
            else:
                near(ctx, f"{opts.get('tag', name)} output {num}", one, other)
    for out in whole:
        out = np.asarray(out)
        ctx.check(out.shape[:len(shape)] == shape, "the result has the shape of the inputs", got=out.shape, want=shape)
    ctx.key(name, shape)


def _turn(name, value):
    """ positions are compared in Cartesian coordinates """
    if name == "convert_to_dipole":
        return np.asarray(eoxmagmod.convert(value, 1, 2))
    return value


def model_for(rng):
    """ (model, leaves, options of the field) """
    kind = int(rng.integers(0, 6))
    if kind in (0, 1):
        internal = bool(rng.integers(2))
        _, coeff, leaves = random_model(rng, internal)
        if kind == 0:
            return "sh", SphericalHarmomicGeomagneticModel(coeff), leaves
        pole = float(rng.uniform(60, 90)), float(rng.uniform(-180, 180))
        return "dipole", DipoleSphericalHarmomicGeomagneticModel(coeff, pole), leaves
    if kind == 2:
        name, model = published(rng)
        return name, model, []
    product = c18.Product(rng)
    if kind == 3:
        return "mio", product.object("secondary"), []
    primary = MIOPrimaryGeomagneticModel(product.object("below"), product.object("above"), height=product.height)
    if kind == 4:
        return "mio primary", primary, []
    name, model = published(rng)
    comp = ComposedGeomagneticModel(model, primary)
    comp.push(product.object("secondary"), -2.0)
    return "composed " + name, comp, []


@REG.family(quick=1500, thorough=15000)
def model_points(ctx, rng):
    """ models, element by element """
    _model_points(ctx, rng, any_shape(rng))


def _model_points(ctx, rng, shape):
    name, model, leaves = model_for(rng)
    tshape = xshape = shape
    if rng.random() < 0.5:
        part = shape[:rng.integers(0, len(shape) + 1)]
        tshape, xshape = (part, shape) if rng.random() < 0.5 else (shape, part)
    if leaves:
        time = times_for(rng, leaves, tshape)
        time = np.where(np.isinf(time) | near_node(leaves, time), 0.5, time)
    else:
        time = rng.choice(np.concatenate([rng.uniform(-4000, 7000, 4), [np.nan, 1e6]]), tshape, p=[0.2] * 4 + [0.1] * 2)
    time = np.asarray(time, float)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    # location above the ionospheric currents or well below them
    sph = gen.sph(rng, xshape, low=6300, high=9000)
    sph[..., 2] = np.where(np.abs(sph[..., 2] - 6481.2) < 2, 6400.0, sph[..., 2])
    coords = np.asarray(eoxmagmod.convert(sph, 1, cin)) if sph.size else sph
    kwargs, leading = {}, {}
    if "mio" in name or "composed" in name:
        for key, low, high in (("f107", 60, 200), ("lat_sol", -23, 23), ("lon_sol", -180, 180)):
            if key == "lon_sol" and "lat_sol" not in leading:
                continue
            if key == "lon_sol" or rng.random() < 0.6:
                num = int(rng.integers(0, len(shape) + 1))
                val = rng.uniform(low, high, shape[:num])
                if key == "f107" and rng.random() < 0.2:
                    val = np.where(rng.random(val.shape) < 0.2, np.nan, val)
                leading[key] = np.asarray(val)
    if rng.random() < 0.3:
        kwargs["scale"] = [2.0, [1.0, -1.0, 0.5]][rng.integers(2)]
    if rng.random() < 0.3:
        kwargs["max_degree"] = int(rng.integers(1, 6))
    kwargs.update(input_coordinate_system=cin, output_coordinate_system=cout)
    ctx.note(model=name, time=time, coords=coords, kwargs=kwargs, options=leading)
    given = {k: gen.relayout(rng, v)[1] if v.size else v for k, v in leading.items()}
    got = model.eval(gen.relayout(rng, time)[1] if time.size else time,
                     gen.relayout(rng, coords)[1] if coords.size else coords, **given, **kwargs)
    ctx.count("model " + name.split()[0] if not leaves else "model " + name)
    ctx.check(isinstance(got, np.ndarray) and got.shape == shape + (3,), "the result has the common shape",
              got=np.shape(got), want=shape)
    for index in points(rng, shape, 12):
        single = model.eval(
            time[index[:time.ndim]], coords[index[:coords.ndim - 1]],
            **{k: v[index[:v.ndim]] for k, v in leading.items()}, **kwargs)
        scale = np.abs(single).max()
        ctx.close("element", got[index], single, rtol=1e-12, atol=1e-11 * scale + 1e-12)
    ctx.key(name, shape)
