"""C31 copied and serialised models"""
import copy
import pickle
import re
import sys
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.checks import c04, c15
from vk.checks.c15 import times_for
from vk.zygote import Zygote
from eoxmagmod import ComposedGeomagneticModel, trace_field_line

REG = Registry(
    rule="a case is one model or coefficient set, copied, deep-copied or sent to another process by pickling, whose "
         "description and evaluations at generated times, places, coordinate systems and options are compared with "
         "those of the original one, before and after the original or its copy is changed",
    assumptions=["user functions stored in the models are importable"],
)
_STATE = {}


def serve(request):
    """ evaluation in the other process """
    data, calls = request
    model = pickle.loads(data)
    return describe(model), [evaluate(model, *call) for call in calls]


def other():
    """ process which has not seen the model """
    if "zygote" not in _STATE:
        _STATE["zygote"] = Zygote(serve)
    return _STATE["zygote"]


def describe(model):
    """ public description """
    out = {}
    for key in ("validity", "degree", "min_degree", "parameters", "is_internal", "north_pole", "height", "wolf_ratio"):
        try:
            out[key] = getattr(model, key)
        except AttributeError:
            continue
    return out


def evaluate(model, time, coords, options):
    """ field """
    return np.asarray(model.eval(time, coords, **options))


def calls(rng, model, leaves):
    """ evaluations """
    out = []
    names = set(model.parameters)
    for _ in range(int(rng.integers(1, 4))):
        shape = gen.shape(rng)
        if leaves:
            time = times_for(rng, leaves, shape)
        else:
            time = rng.choice(np.concatenate([rng.uniform(-4000, 9000, 4), [np.nan]]), shape)
        options = {"input_coordinate_system": int(rng.integers(0, 3)), "output_coordinate_system": int(rng.integers(0, 3))}
        coords = gen.sph(rng, shape, low=6300, high=9000)
        options["input_coordinate_system"] = 1
        if rng.random() < 0.4:
            options["scale"] = [2.0, np.array([1.0, -1.0, 0.5])][rng.integers(0, 2)]
        if rng.random() < 0.4:
            options["max_degree"] = int(rng.integers(1, 6))
        if "f107" in names:
            options["f107"] = float(rng.uniform(60, 200))
        if "subsolar_point" in names or "lat_sol" in names:
            options.update(lat_sol=float(rng.uniform(-23, 23)), lon_sol=float(rng.uniform(-180, 180)))
        out.append((np.asarray(time, float), coords, options))
    return out


def made_here(text):
    """ the object which cannot be pickled is a function of the workload """
    if "eoxmagmod" in text:
        return False
    root = re.search(r"local object '(\w+)[.]<locals>", text)
    return "vk." in text or (root is not None and any(
        hasattr(module, root.group(1)) for name, module in list(sys.modules.items()) if name.startswith("vk.")))


def duplicate(ctx, rng, model):
    """ copies and pickled forms """
    kind = str(rng.choice(["copy", "deepcopy", "pickle"]))
    if kind == "copy":
        return kind, copy.copy(model), None
    try:
        if kind == "deepcopy":
            return kind, copy.deepcopy(model), None
        data = pickle.dumps(model, protocol=int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1)))
    except (pickle.PicklingError, AttributeError, TypeError) as exc:
        if made_here(str(exc)):
            # function of the workload
            ctx.count("not importable")
            raise SkipCase from exc
        ctx.fail("the model cannot be serialised", error=repr(exc), kind=kind)
    return kind, pickle.loads(data), data


def same(ctx, name, got, want):
    """ equal fields """
    for one, two in zip(got, want):
        ctx.check(one.shape == two.shape, name + ": shape", got=one.shape, want=two.shape)
        mag = np.abs(two[np.isfinite(two)]).max(initial=0)
        ctx.close(name, one, two, rtol=1e-12, atol=1e-13 * mag)


def equal_descriptions(ctx, one, two):
    """ equal descriptions """
    for key in sorted(set(one) | set(two)):
        ctx.check(key in one and key in two, "described by the same attributes", name=key)
        left, right = one[key], two[key]
        if key == "parameters":
            left, right = sorted(left), sorted(right)
        ok = left == right if not isinstance(left, tuple) else np.array_equal(
            np.asarray(left, float), np.asarray(right, float), equal_nan=True)
        ctx.check(ok, "description: " + key, got=left, want=right)


@REG.family(quick=1200, thorough=15000)
def models(ctx, rng):
    """ copies of all kinds of models """
    other()
    name, model, leaves = c04.model_for(rng)
    batch = calls(rng, model, leaves)
    ctx.note(model=name, calls=batch)
    want = [evaluate(model, *call) for call in batch]
    kind, twin, data = duplicate(ctx, rng, model)
    ctx.note(kind=kind)
    ctx.check(type(twin) is type(model), "type of the copy", got=type(twin))
    equal_descriptions(ctx, describe(twin), describe(model))
    same(ctx, kind, [evaluate(twin, *call) for call in batch], want)
    same(ctx, "original after " + kind, [evaluate(model, *call) for call in batch], want)
    if data is not None and rng.random() < 0.3:
        status, out = other()((data, batch))
        ctx.check(status == "ok", "evaluation in another process", status=status, detail=out)
        equal_descriptions(ctx, out[0], describe(model))
        same(ctx, "another process", out[1], want)
        ctx.count("other process")
    ctx.count(f"{kind} {name.split()[0]}")
    ctx.key(name, kind, *want[:1])


@REG.family(quick=600, thorough=8000)
def coefficients(ctx, rng):
    """ copies of the coefficient sets """
    if rng.random() < 0.6:
        name, model, leaves = c04.model_for(rng)
        if not hasattr(model, "coefficients"):
            raise SkipCase
        coeff = model.coefficients
    else:
        name, model = c15.published(rng)
        coeff, leaves = model.coefficients, []
    extra = {"mut": float(rng.uniform(0, 24))} if "mio" in name else {}
    params = {"max_degree": int(rng.integers(1, 6))} if rng.random() < 0.5 else {}
    time = [float(t) for t in (times_for(rng, leaves, (3,)) if leaves else rng.uniform(-4000, 9000, 3))]
    time = [t for t in time if np.isfinite(t)]
    ctx.note(model=name, time=time, params=params)
    want = [coeff(t, **extra, **params) for t in time]
    kind, twin, _ = duplicate(ctx, rng, coeff)
    equal_descriptions(ctx, describe(twin), describe(coeff))
    for pos, item in enumerate(time):
        got = twin(item, **extra, **params)
        ctx.equal(kind + ": degree", got[1], want[pos][1])
        ctx.equal(kind + ": coefficients", np.asarray(got[0]), np.asarray(want[pos][0]))
    ctx.count(f"{kind} {name.split()[0]}")
    ctx.key(name, kind, time)


@REG.family(quick=400, thorough=6000)
def independence(ctx, rng):
    """ independent deep copies """
    _, first, _ = c04.model_for(rng)
    name, second = c15.published(rng)
    model = ComposedGeomagneticModel(first)
    model.push(second, float(rng.normal()), **({"max_degree": 2} if rng.random() < 0.5 else {}))
    batch = calls(rng, model, [])
    ctx.note(second=name, calls=batch)
    want = [evaluate(model, *call) for call in batch]
    span = tuple(model.validity)
    while True:
        kind, twin, _ = duplicate(ctx, rng, model)
        if kind != "copy":
            break
    # the copy is extended, the original is not
    changed, kept = (twin, model) if rng.random() < 0.5 else (model, twin)
    changed.push(second, 3.0)
    same(ctx, f"{kind}: not extended", [evaluate(kept, *call) for call in batch], want)
    ctx.check(tuple(kept.validity) == span, "validity of the model which is not extended")
    extra = [np.asarray(second.eval(t, x, **{k: v for k, v in o.items() if k not in ("scale", "f107", "lat_sol", "lon_sol")}))
             * 3.0 * o.get("scale", 1.0) for t, x, o in batch]
    for call, before, add in zip(batch, want, extra):
        got = evaluate(changed, *call)
        mag = np.abs(before[np.isfinite(before)]).max(initial=0) + np.abs(add[np.isfinite(add)]).max(initial=0)
        ctx.close(f"{kind}: extended", got, before + add, rtol=1e-12, atol=1e-12 * mag)
    ctx.count(kind)
    ctx.key(name, kind, *want[:1])


@REG.family(quick=60, thorough=600)
def lines(ctx, rng):
    """ field lines of the copies """
    name, model = c15.published(rng)
    lo, hi = (float(v) for v in model.validity)
    time = float(rng.uniform(max(lo, -3e4), min(hi, 1e4)))
    point = gen.sph(rng, (), low=6400, high=8000)
    ctx.note(model=name, time=time, point=point)
    kind, twin, _ = duplicate(ctx, rng, model)
    options = {"trace_options": {"max_steps": 20}, "model_options": {"max_degree": 4}}
    one, two = (trace_field_line(m, time, point, **options) for m in (model, twin))
    ctx.equal(kind + ": line", one[0], two[0])
    ctx.equal(kind + ": field", one[1], two[1])
    ctx.key(name, kind, time)
