"""C28 invalid requests are rejected with an exception, never answered"""
import os
import numpy as np
from vk.core import Registry, SkipCase
from vk import calls, gen
from vk.checks import c04, c15, c17, c18
from vk.ref.apex import ApexFile
import eoxmagmod
from eoxmagmod import _pymm
from eoxmagmod import data as edata
from eoxmagmod.magnetic_model.coefficients import (
    CombinedSHCoefficients, ComposedSHCoefficients, SparseSHCoefficientsConstant,
    SparseSHCoefficientsTimeDependent, SparseSHCoefficientsTimeDependentDecimalYear,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.field_lines import trace_field_line
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm, load_model_emm
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf, load_model_igrf
from eoxmagmod.magnetic_model.loader_mio import (
    load_coeff_swarm_mio_external, load_coeff_swarm_mio_internal,
    load_model_swarm_mio_external, load_model_swarm_mio_internal,
)
from eoxmagmod.magnetic_model.loader_shc import (
    load_coeff_shc, load_coeff_shc_combined, load_coeff_shc_composed, load_model_shc, load_model_shc_combined,
)
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm, load_model_wmm

REG = Registry(
    rule="a case is a valid call in which one thing has been made invalid (shape, trailing dimension, option, "
         "argument count, file content, parameter); an exception is required and the results of unrelated calls made "
         "afterwards must be bit for bit those obtained before",
    assumptions=[
        "operations which do not use an argument do not examine it (rotation between identical coordinate systems, "
        "unused components of coordinates and unused solar positions)",
        "the scale and the degree limits of a model are examined when there is a time at which it is valid",
        "a text file cut between two rows is indistinguishable from a complete one",
    ],
    env={"OMP_NUM_THREADS": "1"},
)
_STATE = {}
TRAILING_3 = {("convert", "arr_in"), ("sheval", "arr_x"), ("sheval2dfs", "arr_x"), ("shevaltemp", "arr_x"),
              ("vrot_cart2sph", "arr_in"), ("vrot_sph2cart", "arr_in"), ("vrot_sph2geod", "arr_in")}
BAD_TYPES = (-1, 3, 4, 7, 99, 1000, 2**31 - 1, -2**31)


def canaries():
    """ fixed calls and their results before any rejected request """
    if "canaries" not in _STATE:
        rng = np.random.default_rng(5)
        items = []
        for name in calls.BUILDERS:
            call = calls.build(rng, name, (3,))
            items.append((name, call.func, list(call.args.values())))
        lat, lon, rad = rng.uniform(-80, 80, 4), rng.uniform(-180, 180, 4), rng.uniform(6400, 7000, 4)
        for label in ("APEX_LATEST", "APEX_1995", "APEX_2015"):
            if hasattr(edata, label):
                items.append((label, eoxmagmod.eval_qdlatlon_with_base_vectors,
                              [lat, lon, rad, np.full(4, 2012.5), str(getattr(edata, label))]))
        for _ in range(8):
            name, model, _ = c04.model_for(rng)
            items.append(("model " + name, model.eval, [rng.uniform(5100, 5400, 3), gen.sph(rng, (3,), 6400, 9000)]))
        _STATE["canaries"] = [(n, f, a, f(*a)) for n, f, a in items]
    return _STATE["canaries"]


def rejected(ctx, rng, name, func, *args, **kwargs):
    """ the request raises and has no effect on other ones """
    items = canaries()
    ctx.key(name, repr(ctx.notes)[:2000])
    error = ctx.raises(name, func, *args, **kwargs)
    if isinstance(error, SystemError):
        # the interpreter noticed a result returned together with a pending exception
        ctx.fail(name + ": answered instead of rejected", error=repr(error), cause=repr(error.__cause__))
    for pos in rng.integers(0, len(items), 2):
        label, call, params, want = items[pos]
        ctx.check(calls.same(call(*params), want), "result of a valid call after a rejected one: " + label,
                  rejected=name)
        ctx.count("canary_calls")


class Undecided:
    """ neither true nor false """
    def __bool__(self):
        raise ValueError("undecided")


def changed_shape(rng, value, axis, new):
    """ array with one dimension changed """
    shape = list(np.shape(value))
    shape[axis] = new
    return rng.normal(0, 1, shape)


@REG.family(quick=6000, thorough=60000)
def native(ctx, rng):
    """ compiled functions """
    call = calls.build(rng, None, gen.shape(rng))
    args, lead = call.broadcasted(rng)
    kinds = ["tail", "missing", "lead", "enum", "degree", "count", "keyword", "text", "nested", "dims", "structural", "boolean"]
    kind = str(rng.choice(kinds))
    names = list(call.tails)
    name = names[rng.integers(len(names))]
    tail, value = call.tails[name], np.asarray(args[name])
    extra = {}
    if kind == "tail":
        if not tail:
            raise SkipCase
        axis = -int(rng.integers(1, tail + 1))
        size = value.shape[axis]
        fixed = (call.name, name) in TRAILING_3 or (tail == 2 and axis == -1)
        new = int(rng.choice([0, 1, size - 1, size + 1, 2 * size])) if fixed else 0
        if new == size:
            raise SkipCase
        args[name] = changed_shape(rng, value, axis, new)
    elif kind == "missing":
        if not tail:
            raise SkipCase
        num = int(rng.integers(0, tail))
        args[name] = rng.normal(0, 1, (3, 2)[:num])
    elif kind == "lead":
        other = [n for n in names if n != name and lead[n]]
        if not other or not lead[name]:
            raise SkipCase
        axis = int(rng.integers(0, min(lead[name], max(lead[n] for n in other))))
        size = value.shape[axis]
        # broadcasting of dimensions of size one is not offered
        new = size + int(rng.integers(1, 4)) if rng.random() < 0.7 or size < 2 else int(rng.integers(1, size))
        args[name] = changed_shape(rng, value, axis, new)
    elif kind == "enum":
        if not call.enums:
            raise SkipCase
        key = list(call.enums)[rng.integers(len(call.enums))]
        options = [v for v in (*BAD_TYPES, 0, 1, 2, 3, "none", None, 2**40, 0.5) if v not in call.enums[key]]
        args[key] = options[rng.integers(len(options))]
        extra["value"] = args[key]
        name = key
    elif kind == "degree":
        if not call.degrees:
            raise SkipCase
        name = call.degrees[0]
        args[name] = [-1, -2, -100, -2**31, 2**40, "3", None, 1.5][rng.integers(8)]
        extra["value"] = args[name]
    elif kind == "count":
        if rng.random() < 0.5:
            args = dict(list(args.items())[:int(rng.integers(0, call.required))])
        else:
            args = {**args, **{f"x{i}": 1 for i in range(12)}}
    elif kind == "keyword":
        name = str(rng.choice(["bogus", "coord_type", "Degree", "x"]))
        ctx.note(function=call.name, kind=kind)
        rejected(ctx, rng, f"{call.name}: unknown keyword {name}", call.func, *args.values(), **{name: 1})
        return
    elif kind == "text":
        args[name] = ["text", object(), {}, [object()], ["a", "b", "c"], [[1.0, 2.0], [3.0]]][rng.integers(6)]
    elif kind == "boolean":
        options = [k for k, v in args.items() if isinstance(v, bool)]
        if not options:
            raise SkipCase
        name = options[rng.integers(len(options))]
        args[name] = [np.array([1, 2]), Undecided(), np.ones((2, 2), bool), np.zeros(3)][rng.integers(4)]
    elif kind == "nested":
        nested = [[1.0, 2.0, 3.0], [1.0, 2.0]]
        args[name] = [nested, [nested, nested], [[1.0, 2.0, 3.0], 1.0]][rng.integers(3)]
    elif kind == "dims":
        if call.max_lead > 1:
            if call.rule == calls.EQUAL or len(names) == 1 or not lead[name]:
                raise SkipCase
            return native_more_dims(ctx, rng, call, args, name, tail)
        for key in names:
            args[key] = np.ones((2, 3))
    else:
        return native_structural(ctx, rng, call, args)
    ctx.note(function=call.name, kind=kind, argument=name, args=args, **extra)
    ctx.journal(function=call.name, kind=kind, argument=name, args=args)
    rejected(ctx, rng, f"{call.name}: {kind} {name}", call.func, *args.values())
    ctx.count("function " + call.name)
    ctx.count("kind " + kind)
    return


def native_more_dims(ctx, rng, call, args, name, tail):
    """ dimensions which do not match the leading ones of the others """
    value = np.asarray(args[name])
    args[name] = np.broadcast_to(value, (value.shape[0] + 1, *value.shape))
    others = [k for k in call.tails if k != name and np.ndim(args[k]) - call.tails[k] > 0]
    if not others:
        raise SkipCase
    ctx.note(function=call.name, kind="dims", argument=name, args=args, tail=tail)
    if np.shape(args[others[0]])[0] == value.shape[0] + 1:
        raise SkipCase
    rejected(ctx, rng, f"{call.name}: added dimension {name}", call.func, *args.values())
    ctx.count("kind dims")


def native_structural(ctx, rng, call, args):
    """ nodes, Fourier coefficients, coefficient sets, scales """
    name = call.name
    def pick(*options):
        return options[rng.integers(len(options))]
    if name == "bisect":
        args["v"] = pick(np.ones((2, 2)), 1.0, "abc", np.ones((3, 0)))
    elif name == "interp":
        num = len(args["time0"])
        which = int(rng.integers(0, 5))
        if which == 0:
            args["coeff0"] = changed_shape(rng, args["coeff0"], -1, pick(num + 1, num - 1, 0, 2 * num))
        elif which == 1:
            args["time0"] = np.sort(rng.normal(0, 1, pick(num + 1, num - 1, 0)))
        elif which == 2:
            args["time0"] = np.ones((num, 1))
        elif which == 3:
            args["coeff0"] = 1.0
        else:
            args["time0"] = pick("abc", 1.0, [[1.0], [1.0, 2.0]])
    elif name == "fourier2d":
        coeff = args["coeff"]
        args["coeff"] = pick(
            changed_shape(rng, coeff, -1, pick(1, 3, 0)), rng.normal(0, 1, coeff.shape[-1:]),
            rng.normal(0, 1, coeff.shape[-2:]), 1.0, "abc")
    elif name == "sheval2dfs":
        coef, terms, *rest = args["coef_set"]
        wrong = np.array(terms)
        wrong[rng.integers(len(wrong))] = pick((1, 2), (2, -3), (-1, 0), (0, 1), (-3, -3))
        args["coef_set"] = pick(
            (coef, terms, *rest[:-1]), (coef, terms, *rest, 1.0), (), None, 1.0, (coef,),
            (changed_shape(rng, coef, 0, len(coef) + 1), terms, *rest),
            (changed_shape(rng, coef, -1, pick(0, 1, 3)), terms, *rest),
            (coef[0], terms, *rest), (coef, terms[:-1], *rest), (coef, terms[:, :1], *rest),
            (coef, np.concatenate([terms, terms], axis=1), *rest), (coef, terms.ravel(), *rest),
            (coef, wrong, *rest), (coef, terms, "a", *rest[1:]), ("abc", terms, *rest), (coef, terms, *rest[:2], None, 1.0),
            (1.0, terms, *rest))
    elif name == "shevaltemp":
        sets = list(args["coef_set_list"])
        pos = int(rng.integers(len(sets)))
        time, coef, terms, order = sets[pos]
        wrong = np.array(terms)
        wrong[rng.integers(len(wrong))] = pick((1, 2), (2, -3), (-1, 0), (0, 1), (-3, -3))
        bad = pick(
            (time, coef, terms), (time, coef, terms, order, 1), (), None, 1.0,
            (time[:-1], coef, terms, order), (time, coef[:, 1:], terms, order), (time, coef[0], terms, order),
            (time, changed_shape(rng, coef, 0, len(coef) + 1), terms, order), (time, coef, wrong, order),
            # fewer nodes than required by the interpolation
            *((time[:k].copy(), coef[:, :k].copy(), terms, max(k + 1, order)) for k in (0, 1) for _ in range(2)),
            (time, coef, terms[:, :1], order), (time, coef, terms.ravel(), order), (time[:, None], coef, terms, order),
            (time, coef, terms, 0), (time, coef, terms, -1), (time, coef, terms, "2"), (time, coef, terms, None),
            ("abc", coef, terms, order), (1.0, coef, terms, order), (time, coef, 1, order))
        sets[pos] = bad
        args["coef_set_list"] = pick(sets, sets, sets, sets, [], None, 1.0, [1.0], args["coef_set_list"] * 17)
    elif "scale_gradient" in args:
        args["scale_gradient"] = pick([1.0, 2.0], np.ones(4), np.ones((3, 3)), "abc", np.ones(0), np.ones((1, 3)))
    elif name == "eval_qdlatlon":
        args["fname"] = pick("", "/nonexistent/file", "/", None, 1, b"/\xff\x00", "x" * 5000, "a\0b")
        if args["gclat"].size == 0:
            raise SkipCase
    else:
        raise SkipCase
    ctx.note(function=name, kind="structural", args=args)
    ctx.journal(function=name, kind="structural", args=args)
    rejected(ctx, rng, f"{name}: invalid coefficients or nodes", call.func, *args.values())
    ctx.count("kind structural")
    ctx.count("structural " + name)


@REG.family(quick=2500, thorough=25000)
def python(ctx, rng):
    """ Python functions """
    name = list(c04.PYTHON)[rng.integers(len(c04.PYTHON))]
    func, args, _ = c04.PYTHON[name](rng, gen.shape(rng, empty=False))
    args = {k: (np.asarray(v, float), t) for k, (v, t) in args.items()}
    names = list(args)
    if name in ("vrotate", "magnetic_universal_time"):
        names = names[:1] if name == "vrotate" else ["lat_sol", "lon_sol"]
        if names[0] not in args:
            names = ["mjd2000"]
    if name == "vrot_from_dipole":
        names = ["vectors", "lat_dipole", "lon_dipole"]
    key = names[rng.integers(len(names))]
    value, tail = args[key]
    kind = str(rng.choice(["tail", "lead", "text", "count", "keyword"]))
    given = {k: v for k, (v, _) in args.items()}
    if name == "vrotate" or (name == "vnorm" and kind == "tail"):
        kind = "count"      # the types of the coordinates may be identical; norm of vectors of any dimension
    if kind == "tail":
        if not tail:
            raise SkipCase
        given[key] = changed_shape(rng, value, -1, int(rng.choice([0, 1, 2, 4])))
        if name == "vincdecnorm" and given[key].shape[-1] == 4:
            raise SkipCase
    elif kind == "lead":
        if value.ndim == tail or len(args) < 2:
            raise SkipCase
        if name == "magnetic_universal_time" and (key == "mjd2000" or 1 in value.shape):
            raise SkipCase
        axis = int(rng.integers(0, value.ndim - tail))
        given[key] = changed_shape(rng, value, axis, value.shape[axis] + int(rng.integers(1, 3)))
    elif kind == "text":
        given[key] = ["text", object(), [[1.0, 2.0], [3.0]], {}][rng.integers(4)]
    if kind == "keyword":
        ctx.note(function=name, kind=kind)
        rejected(ctx, rng, name + ": keyword", lambda: func(*given.values(), bogus=2))
        return
    params = list(given.values())
    if kind == "count":
        params = params + [1.0] * 12
    ctx.note(function=name, kind=kind, argument=key, args=params)
    ctx.journal(function=name, kind=kind, argument=key, args=params)
    rejected(ctx, rng, f"{name}: {kind} {key}", func, *params)
    ctx.count("function " + name)


@REG.family(quick=700, thorough=7000)
def coordinate_types(ctx, rng):
    """ undocumented coordinate systems """
    bad = int(BAD_TYPES[rng.integers(len(BAD_TYPES))])
    good = int(rng.integers(0, 3))
    shape = gen.shape(rng, empty=False)
    arr = calls._pos(rng, shape, 1)
    lat, lon = arr[..., 0], arr[..., 1]
    coef = rng.normal(0, 10, (6, 2))
    one, two = [(bad, good), (good, bad), (bad, bad), (bad, bad - 1)][rng.integers(4)]
    pole = 80.0, -70.0
    mode = int(rng.choice([-1, 0, 4, 17, 8]))
    options = {
        "convert": lambda: eoxmagmod.convert(arr, one, two),
        "vrotate": lambda: eoxmagmod.vrotate(arr, arr, arr, one, two),
        "convert_to_dipole": lambda: eoxmagmod.convert_to_dipole(arr, *pole, bad),
        "vrot_from_dipole": lambda: eoxmagmod.vrot_from_dipole(arr, *pole, lat, lon, lat, lon, bad),
        "sheval": lambda: eoxmagmod.sheval(arr, coef, coord_type_in=one, coord_type_out=two),
        "sheval_dipole": lambda: eoxmagmod.sheval_dipole(arr, coef, *pole, coord_type_in=one, coord_type_out=two),
        "sheval_dipole potential": lambda: eoxmagmod.sheval_dipole(
            arr, coef, *pole, coord_type_in=bad, mode=_pymm.POTENTIAL),
        "sheval_dipole mode": lambda: eoxmagmod.sheval_dipole(arr, coef, *pole, mode=mode),
        "sheval mode": lambda: eoxmagmod.sheval(arr, coef, mode=mode),
    }
    name = list(options)[rng.integers(len(options))]
    ctx.note(function=name, types=(one, two), bad=bad, mode=mode, shape=shape)
    rejected(ctx, rng, name + ": unknown coordinate system or mode", options[name])
    ctx.count("function " + name)


@REG.family(quick=2500, thorough=25000)
def models(ctx, rng):
    """ model evaluation """
    name, model, _ = c04.model_for(rng)
    shape = gen.shape(rng, empty=False)
    times_ = np.array([rng.uniform(0, 5000), 5000.0, 1e7, -1e7, np.nan])
    time = rng.choice(times_, shape) if rng.random() < 0.6 else float(rng.choice(times_))
    coords = gen.sph(rng, shape, 6400, 9000)
    options = {}
    kinds = ["tail", "tail", "lead", "in", "out", "out", "keyword type", "scale", "text time", "text location", "count"]
    if "mio" in name or "composed" in name:
        kinds += ["f107", "lat_sol"]
    kind = str(rng.choice(kinds))
    if kind in ("keyword type", "scale", "text time"):
        # examined when there is something to be evaluated
        start, end = (float(v) for v in model.validity)
        inside = 0.5 * (max(start, -1e4) + min(end, 1e4))
        if not start <= inside <= end:
            raise SkipCase
        time = np.full(np.shape(time), inside)
        time[rng.random(np.shape(time)) < 0.2] = np.nan
        if time.size and not np.isfinite(time).any():
            time[...] = inside
        if not np.isfinite(model.eval(time, coords)).any():
            raise SkipCase      # between the segments of the model
    if kind == "tail":
        coords = changed_shape(rng, coords, -1, int(rng.choice([0, 1, 2, 4, 6])))
        if rng.random() < 0.2:
            coords, time = 6371.2, 0.0
    elif kind == "lead":
        if not shape:
            raise SkipCase
        time = np.asarray(rng.choice(times_, shape))
        axis = int(rng.integers(len(shape)))
        if rng.random() < 0.5:
            coords = changed_shape(rng, coords, axis, shape[axis] + 1)
        else:
            time = changed_shape(rng, time, axis, shape[axis] + 1)
    elif kind in ("in", "out"):
        options[kind + "put_coordinate_system"] = BAD_TYPES[rng.integers(len(BAD_TYPES))]
    elif kind == "keyword type":
        options[str(rng.choice(["min_degree", "max_degree"]))] = ["a", [1, 2, 3], object()][rng.integers(3)]
    elif kind == "scale":
        options["scale"] = [[1.0, 2.0], np.ones(4), np.ones((7, 3)), "abc"][rng.integers(4)]
        if "composed" in name or "mio" in name or name == "dipole":
            if np.size(options["scale"]) == 21:     # multiplied with the result
                raise SkipCase
    elif kind == "text time":
        time = ["abc", object(), [[1.0], [1.0, 2.0]], {}][rng.integers(4)]
    elif kind == "text location":
        coords = ["abc", object(), [[1.0, 2.0, 3.0], [1.0, 2.0]], {}][rng.integers(4)]
    elif kind in ("f107", "lat_sol"):
        if not shape:
            raise SkipCase
        time = np.asarray(rng.uniform(4950, 5400, shape))
        wrong = list(shape)
        axis = int(rng.integers(len(shape)))
        wrong[axis] += 1
        options[kind] = rng.uniform(10, 20, wrong)
        if kind == "lat_sol":
            options["lon_sol"] = rng.uniform(10, 20, wrong)
    ctx.note(model=name, kind=kind, time=time, coords=coords, options=options)
    ctx.journal(model=name, kind=kind)
    if kind == "count":
        params = [(), (time,), (coords,), (time, coords) + (1,) * 9][rng.integers(4)]
        rejected(ctx, rng, f"{name}: arguments", model.eval, *params)
    else:
        rejected(ctx, rng, f"{name}: {kind}", lambda: model.eval(time, coords, **options))
    ctx.count("kind " + kind)
    ctx.count("model " + name)


@REG.family(quick=500, thorough=4000)
def field_lines(ctx, rng):
    """ tracing """
    name, model = c15.published(rng)
    time = 5300.0
    point = np.array([45.0, 20.0, 6500.0])
    which = int(rng.integers(0, 6))
    options = {}
    if which == 0:
        point = changed_shape(rng, point, -1, int(rng.choice([0, 1, 2, 4])))
    elif which == 1:
        options["input_coordinate_system"] = BAD_TYPES[rng.integers(len(BAD_TYPES))]
    elif which == 2:
        options["output_coordinate_system"] = BAD_TYPES[rng.integers(len(BAD_TYPES))]
        options["trace_options"] = {"max_steps": 5}
    elif which == 3:
        point = rng.uniform(6000, 7000, (3, 3))
        options["input_coordinate_system"] = 2
    elif which == 4:
        options["bogus_option"] = 1
    else:
        point = ["text", object()][rng.integers(2)]
    ctx.note(model=name, which=which, point=point, options=options)
    rejected(ctx, rng, f"field line: {which}", lambda: trace_field_line(model, time, point, **options))
    ctx.count(f"field line {which}")


@REG.family(quick=1500, thorough=12000)
def constructors(ctx, rng):
    """ coefficient objects which cannot be constructed """
    nm = np.array([(1, 0), (1, 1), (1, -1), (2, 0), (2, -2)])[rng.permutation(5)[:rng.integers(1, 6)]]
    num, times_ = len(nm), np.sort(rng.uniform(0, 1000, rng.integers(1, 6)))
    times_ = np.array([0.0, *(times_ + 1)])
    gh = rng.normal(0, 10, (num, times_.size))
    wrong = np.array(nm)
    wrong[rng.integers(num)] = [(1, 2), (1, -2), (-1, 0), (0, 1), (-2, -3)][rng.integers(5)]
    cls = [SparseSHCoefficientsTimeDependent, SparseSHCoefficientsTimeDependentDecimalYear][rng.integers(2)]
    if cls is SparseSHCoefficientsTimeDependentDecimalYear:
        times_ = 2000 + times_ / 100
    kind = int(rng.integers(0, 36))
    mio = rng.normal(0, 1, (num, 3, 5, 2))
    extent = (-2, 2, -1, 1)
    inner = cls(nm, gh, times_)
    outer = cls(nm, gh, times_, is_internal=False)
    table = [
        lambda: cls(nm, gh[:, :-1], times_),
        lambda: cls(nm, rng.normal(size=(num + 1, times_.size)), times_),
        lambda: cls(nm, gh, times_[:-1]),
        lambda: cls(nm, gh, times_[:, None]),
        lambda: cls(nm, gh[0], times_),
        lambda: cls(nm[:, :1], gh, times_),
        lambda: cls(nm.ravel(), gh, times_),
        lambda: cls(wrong, gh, times_),
        lambda: cls(nm, gh, times_, spline_order=int(rng.choice([0, -1, 3, 5, 100]))),
        lambda: cls(nm, gh, 1.0),
        lambda: cls(nm, gh),
        lambda: SparseSHCoefficientsConstant(nm, gh[:, :2]),
        lambda: SparseSHCoefficientsConstant(nm, rng.normal(size=num + 1)),
        lambda: SparseSHCoefficientsConstant(wrong, gh[:, 0]),
        lambda: SparseSHCoefficientsConstant(nm[:, :1], gh[:, 0]),
        lambda: SparseSHCoefficientsMIO(nm, mio, (2, -2, -1, 1)),
        lambda: SparseSHCoefficientsMIO(nm, mio, (-2, 2, 1, -1)),
        lambda: SparseSHCoefficientsMIO(wrong, mio, extent),
        lambda: SparseSHCoefficientsMIO(nm, mio, extent)(0.0),
        lambda: CombinedSHCoefficients(),
        lambda: ComposedSHCoefficients(),
        lambda: CombinedSHCoefficients(inner, outer),
        lambda: ComposedSHCoefficients(inner, outer),
        lambda: inner(),
        lambda: cls(np.concatenate([nm, nm[:, :1]], axis=1), gh, times_),
        lambda: cls(np.concatenate([nm, nm], axis=1), gh, times_),
        lambda: cls(nm[..., None], gh, times_),
        lambda: SparseSHCoefficientsConstant(np.concatenate([nm, nm[:, 1:]], axis=1), gh[:, 0]),
        lambda: SparseSHCoefficientsMIO(np.concatenate([nm, nm[:, 1:]], axis=1), mio, extent),
        lambda: SparseSHCoefficientsMIO(nm[None], mio, extent),
        lambda: SparseSHCoefficientsMIO(nm[:, :1], mio, extent),
        lambda: SparseSHCoefficientsMIO(nm, mio[..., 0], extent),
        lambda: SparseSHCoefficientsMIO(nm, mio, (-2, 2, -2, 2)),
        lambda: SparseSHCoefficientsMIO(nm, mio, (-1, 2, -1, 1)),
        lambda: SparseSHCoefficientsMIO(nm, mio[:, :, :, [0, 1, 1]], extent),
        lambda: SparseSHCoefficientsMIO(nm, rng.normal(0, 1, (num + 1, 3, 5, 2)), extent),
    ]
    ctx.note(kind=kind, cls=cls.__name__, nm=nm, wrong=wrong, times=times_)
    rejected(ctx, rng, f"{cls.__name__}: constructor {kind}", table[kind])
    ctx.count(f"constructor {kind}")


# ---- files -------------------------------------------------------------------

def rows_of(rng, count, fmt="%.3f"):
    """ random numbers """
    return [fmt % v for v in rng.normal(0, 100, count)]


def text_file(rng, kind):
    """ (header lines, data rows of tokens, trailer, loaders) """
    nm = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2)][:int(rng.integers(3, 9))]
    if kind == "shc":
        num = gen.tail(rng, 2, 6, 40)
        years = [f"{2000.0 + i}" for i in range(num)]
        return ([["1", "2", str(num), "2", "1"], years],
                [[str(n), str(m), *rows_of(rng, num)] for n, m in nm], [],
                [load_model_shc, load_coeff_shc, load_model_shc_combined, lambda p: load_model_shc(p, edata.LCS_1 if hasattr(edata, "LCS_1") else p),
                 load_coeff_shc_combined, load_coeff_shc_composed])
    if kind == "igrf":
        years = ["1990.0", "1995.0", "2000.0"]
        return ([["c/s", "deg", "ord", "IGRF", "DGRF", "IGRF", "SV"], ["g/h", "n", "m", *years, "2000-05"]],
                [["g" if m >= 0 else "h", str(n), str(abs(m)), *rows_of(rng, 4)] for n, m in nm], [],
                [load_model_igrf, load_coeff_igrf])
    if kind == "wmm":
        return ([["2015.0", "WMM-2015", "12/15/2014"]],
                [[str(n), str(m), *rows_of(rng, 4)] for n, m in nm if m >= 0], ["9" * 48],
                [load_model_wmm, load_coeff_wmm])
    if kind == "mio":
        head = ["2", "2", "-1", "1", "0", "1", "10.5", "-72.1", "110.0", "0.01485"]
        rows = [[str(n), str(m), *rows_of(rng, 12, "%.5e")] for n, m in nm]
        return ([head], rows + [[*r[:2], *rows_of(rng, 12, "%.5e")] for r in rows], [],
                [load_model_swarm_mio_internal, load_model_swarm_mio_external, load_coeff_swarm_mio_internal,
                 load_coeff_swarm_mio_external])
    raise AssertionError(kind)


def save(path, head, rows, trailer):
    """ write text file """
    with open(path, "w", encoding="ascii") as out:
        for line in [*head, *rows, *([t] for t in trailer)]:
            out.write(" ".join(line) + "\n")


@REG.family(quick=2500, thorough=20000)
def text_files(ctx, rng):
    """ malformed coefficient files """
    kind = str(rng.choice(["shc", "igrf", "wmm", "mio"]))
    head, rows, trailer, loaders = text_file(rng, kind)
    loader = loaders[rng.integers(len(loaders))]
    path = os.path.join(ctx.work_dir, "coefficients.txt")
    if ctx.cases % 20 == 0:
        save(path, head, rows, trailer)
        loader(path)        # the original is accepted
        ctx.count("accepted_originals")
    first = {"shc": 0, "wmm": 0, "mio": 0, "igrf": 1}[kind]
    pos = int(rng.integers(len(rows)))
    row = rows[pos] = list(rows[pos])
    how = str(rng.choice(["text", "text", "delete", "add", "order", "degree", "fraction", "header", "empty", "no rows", "binary",
                          "missing", "directory", "comments"]))
    bad_number = ["x", "1.0.0", "--1", "1,5", "0x10", "1e", "?", "1.5D2x"][rng.integers(8)]
    if how == "text":
        row[int(rng.integers(first, len(row)))] = bad_number
    elif how == "delete":
        if kind == "shc" and len(rows) == 1:
            raise SkipCase
        del row[-int(rng.integers(1, 3))]
        if kind == "igrf" and len(row) == 2:
            raise SkipCase
    elif how == "add":
        if kind == "wmm":
            raise SkipCase      # further columns are ignored
        row.append("1.0")
    elif how == "order":
        row[first + 1] = str(int(row[first]) + int(rng.integers(1, 3)))
        if kind == "mio" and rng.random() < 0.5:
            # both tables
            rows[(pos + len(rows) // 2) % len(rows)][first + 1] = row[first + 1]
    elif how == "degree":
        row[first] = "-" + row[first]
    elif how == "fraction":
        row[first + int(rng.integers(0, 2))] += ".5"
    elif how == "header":
        if kind == "shc":
            which = int(rng.integers(0, 4))
            if which == 0:
                head[0] = head[0][:int(rng.integers(1, 5))]
            elif which == 1:
                head[0][int(rng.integers(0, 5))] = bad_number
            elif which == 2:
                head[1] = head[1] + ["2100.0"] if rng.random() < 0.5 else head[1][:-1]
            else:
                head[1][int(rng.integers(len(head[1])))] = bad_number
        elif kind == "igrf":
            head = [list(h) for h in text_file(rng, kind)[0]]
            if rng.random() < 0.5:
                head[1][int(rng.integers(3, len(head[1]) - 1))] = bad_number
            else:
                head[1].insert(4, "1992.5")
        elif kind == "wmm":
            head = [[bad_number, "WMM", "12/15/2014"]] if rng.random() < 0.7 else [["2015.0"]]
        else:
            line = text_file(rng, kind)[0][0]
            if rng.random() < 0.4:
                line[int(rng.integers(len(line)))] = bad_number
            elif rng.random() < 0.5:
                line = line[:int(rng.integers(1, 10))]
            else:
                line[int(rng.choice([3, 5]))] = str(int(rng.choice([2, 3, 4])))
            head = [line]
    elif how == "no rows":
        rows = []
    save(path, head, rows, trailer)
    if how in ("empty", "comments"):
        with open(path, "w", encoding="ascii") as out:
            out.write("" if how == "empty" else "# comment\n\n# another\n")
    elif how == "binary":
        with open(path, "wb") as out:
            out.write(bytes(rng.integers(0, 256, 3000, dtype=np.uint8).tolist()) + b"\xff\xfe\x00\x81")
    elif how == "missing":
        path = os.path.join(ctx.work_dir, "no", "such", "file.txt")
    elif how == "directory":
        path = ctx.work_dir
    ctx.note(format=kind, how=how, head=head, row=row, pos=pos, loader=getattr(loader, "__name__", "lambda"))
    ctx.journal(format=kind, how=how)
    rejected(ctx, rng, f"{kind} file: {how}", loader, path)
    ctx.count(f"{kind} {how}")


def emm_file(rng, path, epoch, nm, how):
    """ write EMM file """
    rows = [[str(n), str(m), *rows_of(rng, 2)] for n, m in nm]
    head = [["Epoch:", epoch], ["n", "m", "Gnm", "Hnm"], ["-" * 30]]
    pos = int(rng.integers(len(rows)))
    if how == "text":
        rows[pos][int(rng.integers(0, 4))] = "1.0.x"
    elif how == "delete":
        del rows[pos][-int(rng.integers(1, 3)):]
    elif how == "epoch":
        head[0][1] = "x2015"
    elif how == "no epoch":
        del head[0]
    elif how == "rule":
        del head[2]
    elif how == "order":
        rows[pos][1] = "9"
    elif how == "no rows":
        rows = []
    save(path, head, rows, [])


@REG.family(quick=400, thorough=4000)
def emm_files(ctx, rng):
    """ EMM pairs """
    nm = [(n, m) for n in range(1, 5) for m in range(n + 1)]
    short = nm[:5]
    how = str(rng.choice(["text", "delete", "epoch", "no epoch", "rule", "order", "no rows", "other epoch", "swapped",
                          "other terms", "missing"]))
    static, secvar = (os.path.join(ctx.work_dir, n) for n in ("static.cof", "secvar.cof"))
    broken = int(rng.integers(0, 2))
    emm_file(rng, static, "2015.0", nm, how if broken else "")
    emm_file(rng, secvar, "2015.0", short, "" if broken else how)
    if how == "other epoch":
        emm_file(rng, secvar, "2020.0", short, "")
    elif how == "swapped":
        static, secvar = secvar, static
    elif how == "other terms":
        emm_file(rng, secvar, "2015.0", nm[1:6], "")
    elif how == "missing":
        if broken:
            static += ".none"
        else:
            secvar += ".none"
    loader = [load_model_emm, load_coeff_emm][rng.integers(2)]
    ctx.note(how=how, broken=broken)
    if how != "missing" and rng.random() < 0.05:
        emm_file(rng, static, "2015.0", nm, "")
        emm_file(rng, secvar, "2015.0", short, "")
        if os.path.basename(static) == "static.cof":
            loader(static, secvar)
            ctx.count("accepted_originals")
        return
    rejected(ctx, rng, "EMM files: " + how, loader, static, secvar)
    ctx.count("emm " + how)


@REG.family(quick=600, thorough=6000)
def apex_files(ctx, rng):
    """ malformed QD coefficient files """
    nmax = int(rng.integers(1, 5))
    mmax, lmax, num = int(rng.integers(1, nmax + 1)), int(rng.integers(0, 4)), int(rng.integers(1, 5))
    size = mmax * (2 * nmax - mmax + 1) + nmax + 1
    item = ApexFile([2000.0 + 5 * i for i in range(num)], nmax, mmax, lmax,
                    rng.normal(0, 0.1, (6, num, lmax + 1, size)))
    path = os.path.join(ctx.work_dir, f"apex{rng.integers(0, 3)}.txt")
    point = [rng.uniform(-80, 80, 3), rng.uniform(-180, 180, 3), rng.uniform(6400, 7000, 3), np.full(3, 2003.5)]
    how = str(rng.choice(["truncated", "text", "header", "count", "empty", "binary", "missing", "directory", "huge", "negative",
                          "few", "zero"]))
    func = [eoxmagmod.eval_qdlatlon, eoxmagmod.eval_qdlatlon_with_base_vectors][rng.integers(2)]
    item.write(path, rng)
    with open(path, encoding="ascii") as file:
        first, body = file.read().split("\n", 1)
    head, words = first.split(), body.split()
    if how == "truncated":
        words = words[:int(rng.integers(0, len(words)))]
    elif how == "text":
        words[int(rng.integers(len(words)))] = ["abc", "1.0x", "--", "1.2.3"][rng.integers(4)]
    elif how == "header":
        head[int(rng.integers(5))] = ["x", "1.5.1", "-", "nan"][rng.integers(4)]
    elif how == "count":
        head[4] = str(int(head[4]) + int(rng.choice([-1, 1, 5])))
    elif how == "huge":
        head[int(rng.integers(1, 4))] = ["1000000", "99999999999", "2147483647"][rng.integers(3)]
    elif how == "negative":
        head[int(rng.integers(5))] = ["-1", "-5", "-2147483648"][rng.integers(3)]
    elif how == "zero":
        head[[0, 1, 4][rng.integers(3)]] = "0"
    elif how == "few":
        head, words = head[:int(rng.integers(1, 5))], []
    with open(path, "w", encoding="ascii") as file:
        file.write(" ".join(head) + "\n" + " ".join(words) + "\n")
    if how == "empty":
        with open(path, "w", encoding="ascii"):
            pass
    elif how == "binary":
        with open(path, "wb") as file:
            file.write(bytes(rng.integers(128, 256, 4000, dtype=np.uint8).tolist()))
    elif how == "missing":
        path += ".none"
    elif how == "directory":
        path = ctx.work_dir
    ctx.note(how=how, head=head)
    ctx.journal(how=how, head=head)
    rejected(ctx, rng, "QD coefficient file: " + how, func, *point, fname=path)
    if os.path.isfile(path):
        # repaired file of another name is accepted
        good = os.path.join(ctx.work_dir, f"good-{ctx.index}.txt")
        item.write(good, rng)
        out = func(*point, fname=good)
        ctx.check(all(np.isfinite(v).all() for v in out[:2]), "valid file after a malformed one")
        os.unlink(good)
    ctx.count("apex " + how)


@REG.family(quick=60, thorough=500)
def cdf_files(ctx, rng):
    """ unreadable magnetospheric product """
    names = [n for n in dir(eoxmagmod) if n.startswith("load_model_swarm_mma")]
    if not names:
        raise SkipCase
    loader = getattr(eoxmagmod, names[rng.integers(len(names))])
    path = os.path.join(ctx.work_dir, "mma.cdf")
    how = str(rng.choice(["missing", "binary", "empty", "directory"]))
    if how == "directory":
        path = ctx.work_dir
    elif how != "missing":
        with open(path, "wb") as file:
            file.write(b"" if how == "empty" else bytes(rng.integers(0, 256, 5000, dtype=np.uint8).tolist()))
    elif os.path.exists(path):
        os.unlink(path)
    ctx.note(how=how, loader=loader.__name__)
    rejected(ctx, rng, f"CDF {how}", loader, path)
    ctx.count("cdf " + how)
