"""C03 results depend only on the arguments, which are never modified"""
import ctypes
import decimal
import gc
import locale
import os
import random
import signal
import sys
import threading
import time as clock
import warnings
import numpy as np
from vk.core import Registry
from vk import calls, gen, shim
from vk.checks import c04, c15, c26
from vk.zygote import Zygote
import eoxmagmod
from eoxmagmod import data as edata
from eoxmagmod import _pymm, _pyqd
from eoxmagmod.magnetic_time import get_subsol
from eoxmagmod.magnetic_model.field_lines import trace_field_line
from eoxmagmod.magnetic_model.parser_igrf import parse_igrf_file
from eoxmagmod.magnetic_model.parser_shc import parse_shc_file
from eoxmagmod.magnetic_model.parser_wmm import parse_wmm_file

REG = Registry(
    scale=2,
    rule="a case is a sequence of randomly chosen calls (every compiled function, the Python functions, models, "
         "QD coefficient files) whose results are compared bit for bit with those of the same calls made as the "
         "first ones of a fresh process, under different memory contents, or in concurrent threads",
    assumptions=[
        "coefficient files are not replaced while they are in use",
        "thread interleavings are those of the Python interpreter switching every microsecond",
    ],
    env={"OMP_NUM_THREADS": "1"},
)
_STATE = {}
PARSERS = [
    ("WMM_2015", parse_wmm_file), ("WMM_2020", parse_wmm_file), ("WMM_2010", parse_wmm_file),
    ("IGRF11", parse_igrf_file), ("IGRF12", parse_shc_file), ("IGRF13", parse_shc_file), ("IGRF14", parse_shc_file),
    ("SIFM", parse_shc_file), ("CHAOS_STATIC_LATEST", parse_shc_file), ("CHAOS_CORE_PREDICTION_LATEST", parse_shc_file),
]
QD_FILES = [getattr(edata, n) for n in dir(edata) if n.startswith("APEX_")]
QD_FILES = sorted({str(f) for f in QD_FILES})


def flat(result):
    """ flat list of arrays """
    if isinstance(result, dict):
        result = [result[key] for key in sorted(result)]
    if isinstance(result, (tuple, list)):
        return [v for item in result for v in flat(item)]
    return [np.asarray(result)]


def identical(one, other):
    """ bitwise equality """
    one, other = flat(one), flat(other)
    return len(one) == len(other) and all(
        a.dtype == b.dtype and a.shape == b.shape
        and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
        for a, b in zip(one, other))


def same(ctx, name, got, want, **data):
    """ bitwise equality of the results """
    ctx.count("comparisons")
    if not identical(got, want):
        for one, other in zip(flat(got), flat(want)):
            ctx.equal(name, one, other, **data)
        ctx.fail(name + ": results differ in their bits", got=flat(got), want=flat(want), **data)
    ctx.check(True, name)
    ctx.key(name, *[v for v in flat(want)[:2]])


# ---- jobs -------------------------------------------------------------------

def qd_call(rng):
    """ evaluation of the QD coordinates, repeating files, epochs and altitudes """
    num = int(rng.integers(0, 7))
    shape = (num,) if num else ()
    kind = int(rng.integers(0, 8))
    if kind == 0:
        times_ = rng.choice([0.0, 0.3, 1.2, 5000.0, 5000.5, -20000.0], shape)
        lon = rng.choice([0.0, 12.5, -170.0, 90.0], shape)
        return "eval_mlt", _pyqd.eval_mlt, [lon, times_]
    if kind == 1:
        return "eval_subsol", _pyqd.eval_subsol, [rng.choice([0.0, 0.3, 1.2, 5000.0, 5000.5, -20000.0], shape)]
    base = rng.choice([1990.0, 2000.0, 2010.0, 2014.9999, 2020.0, 2024.75])
    years = np.where(rng.random(shape) < 0.5, base, base + rng.choice(
        [0.0, 1e-9, -1e-9, 1e-4, 0.1, 0.5, -0.25, 5.0, -5.0, 10.0], shape))
    lat = rng.choice([0.0, 45.0, -45.0, 89.5, -77.7, 12.3456], shape)
    lon = rng.choice([0.0, 180.0, -90.0, 33.3], shape)
    rad = rng.choice([6371.2, 6371.3, 6471.2, 6821.2, 7000.0, 6371.2000001], shape)
    return "eval_qdlatlon", _pyqd.eval_qdlatlon, [
        lat, lon, rad, years, QD_FILES[rng.integers(len(QD_FILES))], bool(rng.integers(2))]


def helper(rng):
    """ rotation matrices, parsed files and other values shared by the callers """
    kind = int(rng.integers(0, 3))
    if kind == 0:
        lat, lon = rng.choice([80.0, -80.0, 79.5, 90.0, 0.0]), rng.choice([20.0, -20.0, -71.6, 180.0, 0.0])
        return "get_dipole_rotation_matrix", eoxmagmod.get_dipole_rotation_matrix, [np.array(lat), np.array(lon)]
    if kind == 1:
        return "get_subsol", get_subsol, [rng.choice([0.0, 0.3, 1.2, 5000.0, 5000.5, -20000.0], ())]
    names = [(n, p) for n, p in PARSERS if hasattr(edata, n)]
    name, parser = names[rng.integers(len(names))]

    def parse(path):
        with open(path, encoding="ascii") as file:
            return parser(file)

    return "parse " + name, parse, [getattr(edata, name)]


def tabular(seed, group):
    """ (name, function, arguments) generated from the seed """
    rng = np.random.default_rng(seed)
    if group == "any":
        group = ["native", "native", "native", "qd", "python", "model", "model", "published", "loader",
                 "helper"][rng.integers(10)]
    if group == "helper":
        return helper(rng)
    if group == "native":
        call = calls.build(rng, None, gen.shape(rng))
        args, _ = call.broadcasted(rng)
        return call.name, call.func, list(args.values())
    if group == "qd":
        return qd_call(rng)
    if group == "python":
        name = list(c04.PYTHON)[rng.integers(len(c04.PYTHON))]
        func, args, _ = c04.PYTHON[name](rng, gen.shape(rng))
        return name, func, [np.asarray(v, float) for v, _ in args.values()]
    if group == "loader":
        names = [(n, f) for n, f in c15.FILES if hasattr(edata, n)]
        name, loader = names[rng.integers(len(names))]

        def load(path):
            try:
                return loader(path)
            except ValueError:
                return eoxmagmod.load_model_shc(path)

        time, loc = float(rng.uniform(5000, 5400)), gen.sph(rng, (2,), 6371, 7000)
        return "load " + name, lambda p, t, x: load(p).eval(t, x), [getattr(edata, name), time, loc]
    if group == "published":
        name, model = c15.published(rng)
    else:
        name, model, _ = c04.model_for(rng)
    shape = gen.shape(rng)
    start, end = 0.0, 6000.0
    time = rng.choice(np.concatenate([rng.uniform(start, end, 3), [0.5]]), shape)
    if rng.random() < 0.3:
        time = np.asarray(float(time.ravel()[0])) if time.size else time
    sph = gen.sph(rng, shape, low=6300, high=9000)
    options = {"max_degree": int(rng.integers(1, 8))} if rng.random() < 0.3 else {}
    if rng.random() < 0.3:
        options["scale"] = np.array([1.0, -1.0, 2.0])
    return "model " + name, lambda m, t, x, o: m.eval(t, x, **o), [model, time, sph, options]


def evaluate(request):
    """ executed in the pristine process """
    name, func, args = tabular(*request)
    return name, func(*args)


def pristine():
    """ server forked before the first evaluation """
    if "zygote" not in _STATE:
        _STATE["zygote"] = Zygote(evaluate)
    return _STATE["zygote"]


def expected(ctx, request):
    """ result of the fresh process """
    status, out = pristine()(request)
    if status != "ok":
        ctx.fail("evaluation in a fresh process failed", status=status, detail=out, request=request)
    return out[1]


def seeds(rng, num):
    """ seeds of the jobs """
    return [int(v) for v in rng.integers(0, 2**60, num)]


@REG.family(quick=60, thorough=900)
def history(ctx, rng):
    """ the same call after many other calls """
    pristine()
    requests = [(s, "any") for s in seeds(rng, 60)]
    order = list(range(len(requests))) + [int(v) for v in rng.integers(0, len(requests), 60)]
    rng.shuffle(order)
    ctx.note(requests=requests[:5])
    want = {}
    for pos, item in enumerate(order):
        name, func, args = tabular(*requests[item])
        ctx.journal(function=name, request=requests[item])
        got = func(*args)
        if item not in want:
            if len(want) >= 25:
                continue
            want[item] = expected(ctx, requests[item])
        same(ctx, "call after other calls: " + name, got, want[item], request=requests[item], position=pos)
        ctx.count("function " + name.split()[0])


@REG.family(quick=60, thorough=1500)
def qd_history(ctx, rng):
    """ mixed QD coefficient files, epochs and altitudes """
    pristine()
    requests = [(s, "qd") for s in seeds(rng, 30)]
    ctx.note(requests=requests[:5])
    want = {}
    for pos in range(90):
        item = int(rng.integers(0, len(requests)))
        name, func, args = tabular(*requests[item])
        ctx.journal(function=name, request=requests[item], args=args)
        got = func(*args)
        if item not in want:
            want[item] = expected(ctx, requests[item])
        same(ctx, "QD call after other calls: " + name, got, want[item], request=requests[item],
             position=pos, args=args)
        ctx.count("function " + name)


@REG.family(quick=150, thorough=3000)
def chains(ctx, rng):
    """ a batch of points in any order, the points selected from a small grid
    so that the components repeat between the neighbours """
    pristine()
    name = str(rng.choice(["sheval", "sheval2dfs", "shevaltemp", "eval_qdlatlon", "eval_mlt", "sunpos"]))
    num = gen.tail(rng, 2, 24, 80)
    call = calls.build(rng, name, (num,))
    args = dict(call.args)
    # few distinct values of each of the components
    for key, tail in call.tails.items():
        value = np.array(args[key])
        for _ in range(num):
            i, j = rng.integers(0, num, 2)
            if tail == 1 and rng.random() < 0.7:
                comp = rng.integers(0, value.shape[-1])
                value[i, comp] = value[j, comp]
            else:
                value[i] = value[j]
        args[key] = value
    ctx.note(function=name, args=args)
    whole = flat(call.func(*args.values()))
    perm = rng.permutation(num)
    moved = flat(call.func(*{k: v[perm] if k in call.tails else v for k, v in args.items()}.values()))
    for one, other in zip(whole, moved):
        if name == "eval_mlt":
            continue        # the pole is refreshed if the time changes by more than a day
        # in a different order the same operations are made
        ctx.close("permuted points of " + name, other, one[perm], rtol=1e-14,
                  atol=1e-14 * float(np.nanmax(np.abs(one))) if one.size else 0)
    again = call.func(*args.values())
    same(ctx, "repeated call of " + name, again, whole)
    ctx.count("chain " + name)


@REG.family(quick=1500, thorough=30000)
def initialised(ctx, rng):
    """ the same call with the memory and the stack filled with different values """
    lib = shim.load()
    call = calls.build(rng, None, gen.shape(rng))
    args, _ = call.broadcasted(rng)
    if rng.random() < 0.3:
        # degree and scale at their limits
        if "degree" in args:
            args["degree"] = int(rng.integers(0, 3)) if call.degrees else int(rng.integers(-2, 3))
    if rng.random() < 0.2:
        # values for which the result may be undefined
        for key in call.tails:
            value = np.array(args[key], dtype=float)
            if value.size and rng.random() < 0.5 and call.name not in ("eval_qdlatlon",):
                value[tuple(rng.integers(0, n) for n in value.shape)] = rng.choice([np.nan, 0.0, 1e5])
                args[key] = value
    ctx.note(function=call.name, args=args)
    ctx.journal(function=call.name, args=args)
    results = []
    sizes = None
    for fill, sentinel in ((0x5a, 7e77), (0xff, np.nan), (0x01, -3.0)):
        shim.perturb(fill)
        try:
            if sizes is not None:
                for size in sizes:
                    # the small blocks are recycled by numpy
                    keep = [np.full(size, sentinel) for _ in range(4)]
                    del keep
            lib.vk_dirty_stack(fill)
            out = flat(call.func(*args.values()))
        finally:
            shim.perturb(0)
        sizes = sorted({max(1, v.size) for v in out})
        results.append([np.array(v) for v in out])
        del out
    for other in results[1:]:
        same(ctx, "memory content: " + call.name, other, results[0])
    ctx.count("function " + call.name)


def snapshot(objects):
    """ contents of all arrays reachable from the objects and of the containers of the caller """
    seen, found, stack = set(), [], [(item, True) for item in objects]
    while stack:
        item, mine = stack.pop()
        if id(item) in seen:
            continue
        seen.add(id(item))
        if isinstance(item, np.ndarray):
            base = item
            while isinstance(base.base, np.ndarray):
                base = base.base
            found.append((base, base.tobytes(), base.shape, base.dtype))
            if base is not item:
                found.append((item, item.tobytes(), item.shape, item.dtype))
        elif isinstance(item, dict):
            if mine:
                found.append((item, repr(sorted((repr(k), id(v)) for k, v in item.items())), None, None))
            stack.extend((v, mine) for v in item.values())
        elif isinstance(item, (list, tuple, set)):
            if mine and isinstance(item, list):
                found.append((item, repr([id(v) for v in item]), None, None))
            stack.extend((v, mine) for v in item)
        elif type(item).__module__.startswith("eoxmagmod") and hasattr(item, "__dict__"):
            # containers inside of the objects are their own affair
            stack.extend((v, False) for v in vars(item).values())
        elif callable(item) and getattr(item, "__closure__", None):
            for cell in item.__closure__:
                try:
                    stack.append((cell.cell_contents, mine))
                except ValueError:
                    pass
    return found


def unmodified(ctx, name, found):
    """ check the snapshot """
    for item, content, shape, dtype in found:
        if isinstance(item, np.ndarray):
            ok = item.shape == shape and item.dtype == dtype and item.tobytes() == content
        elif isinstance(item, dict):
            ok = repr(sorted((repr(k), id(v)) for k, v in item.items())) == content
        else:
            ok = repr([id(v) for v in item]) == content
        ctx.check(ok, name + ": an argument has been modified", item=item)
    ctx.count("snapshots", len(found))


@REG.family(quick=1500, thorough=25000)
def arguments(ctx, rng):
    """ arguments are unmodified, results are independent of each other """
    seed = int(rng.integers(0, 2**60))
    name, func, args = tabular(seed, ["native", "native", "qd", "python", "model", "published", "helper"][rng.integers(7)])
    owned = isinstance(args[0], np.ndarray) or not hasattr(args[0], "eval")
    for pos, arg in enumerate(args):
        if isinstance(arg, np.ndarray) and arg.size and rng.random() < 0.5:
            kinds = ["C", "F", "reversed", "strided", "unaligned", "moved", "offset"]
            if "times" not in name and "mjd2000" not in name:
                kinds.append("swapped")
            args[pos] = gen.relayout(rng, arg, kinds)[1]
    ctx.note(function=name, args=[a for a in args if not hasattr(a, "eval")])
    ctx.journal(function=name, args=[a for a in args if not hasattr(a, "eval")])
    found = snapshot(args + [func])
    first = func(*args)
    unmodified(ctx, name, found)
    arrays = [v for v in flat(first) if isinstance(v, np.ndarray)]
    keep = [np.array(v) for v in arrays]
    mine = [a for a in args if isinstance(a, np.ndarray)]
    second = func(*args)
    same(ctx, "repeated call: " + name, second, keep)
    same(ctx, "result after another call: " + name, first, keep)
    # the result belongs to the caller
    for arr in arrays:
        if arr.ndim and arr.flags.writeable and not any(np.may_share_memory(arr, m) for m in mine):
            arr[...] = 12345 if arr.dtype.kind != "f" else np.nan
            ctx.count("overwritten_results")
    unmodified(ctx, name + " (after the result was overwritten)", found)
    same(ctx, "call after its result has been overwritten: " + name, func(*args), keep)
    # changed arguments must be noticed
    if owned and mine and rng.random() < 0.5:
        for arg in mine:
            if arg.size and arg.flags.writeable and name != "convert_to_dipole":
                arg *= 1.0 + 2.0**-30
        if name != "eval_qdlatlon":
            fresh = func(*[np.array(a) if isinstance(a, np.ndarray) else a for a in args])
            for got, want in zip(flat(func(*args)), flat(fresh)):
                # the memory layout may change the order of the operations
                top = np.abs(want[np.isfinite(want)]) if want.dtype.kind == "f" else np.zeros(0)
                ctx.close("modified argument: " + name, got, want, rtol=1e-11,
                          atol=1e-12 * float(top.max()) if top.size else 0)
    ctx.count("function " + name.split()[0])
    del first, second
    gc.collect(0)


def _coefficients(rng):
    """ (name, callables on coefficient objects) """
    name, model, leaves = c04.model_for(rng)
    if hasattr(model, "coefficients"):
        return name, model, model.coefficients
    name, model = c15.published(rng)
    del leaves
    return name, model, model.coefficients


@REG.family(quick=500, thorough=8000)
def coefficient_objects(ctx, rng):
    """ coefficients returned by the objects belong to the caller """
    name, model, coeff = _coefficients(rng)
    time = float(rng.uniform(0, 5000))
    params = {"max_degree": int(rng.integers(1, 6))} if rng.random() < 0.5 else {}
    mio = "mio" in name
    extra = {"mut": float(rng.uniform(0, 24))} if mio else {}
    coords = gen.sph(rng, (2,), 6300, 7000)
    ctx.note(model=name, time=time, params=params)
    found = snapshot([model])
    before = model.eval(time, coords)
    out = coeff(time, **extra, **params)
    keep = np.array(out[0])
    arr = np.asarray(out[0])
    if arr.flags.writeable:
        arr[...] = np.nan
        ctx.count("overwritten_coefficients")
    unmodified(ctx, name, found)
    same(ctx, "coefficients after overwriting: " + name, coeff(time, **extra, **params)[0], keep)
    same(ctx, "model after overwriting: " + name, model.eval(time, coords), before)
    ctx.count("model " + name.split()[0])


_LIBM = ctypes.CDLL("libm.so.6")


def process_state():
    """ settings of the process shared with the callers """
    return {
        "numpy error state": np.geterr(),
        "numpy error callback": np.geterrcall(),
        "numpy print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "numpy random generator": [str(v) for v in np.random.get_state()[1][:8]] + [int(np.random.get_state()[2])],
        "random generator": hash(random.getstate()),
        "warning filters": [str(v) for v in warnings.filters],
        "warning hook": id(warnings.showwarning),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": (clock.tzname, clock.timezone),
        "decimal context": str(decimal.getcontext()),
        "floating point rounding": _LIBM.fegetround(),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGSEGV)],
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "open files 0 to 2": [os.fstat(i).st_ino for i in (1, 2)],
        "recursion limit": sys.getrecursionlimit(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "umask": _umask(),
        "module path": list(sys.path),
    }


def _umask():
    """ current mask """
    value = os.umask(0o22)
    os.umask(value)
    return value


@REG.family(quick=150, thorough=2500)
def settings(ctx, rng):
    """ settings of the process are neither heeded nor changed """
    pristine()
    # anything imported by the first calls
    requests = [(s, "any") for s in seeds(rng, 12)]
    for request in requests:
        _, func, args = tabular(*request)
        func(*args)
    want = [expected(ctx, request) for request in requests]
    jobs = [tabular(*request) for request in requests]
    ctx.note(requests=requests)
    saved = np.geterr(), np.get_printoptions(), np.random.get_state(), random.getstate(), os.getcwd(), os.environ.get("TZ")
    context, gcstate, language = decimal.getcontext().copy(), gc.isenabled(), locale.setlocale(locale.LC_ALL)
    try:
        np.seterr(all=str(rng.choice(["ignore", "warn"])))
        np.set_printoptions(precision=int(rng.integers(0, 17)), threshold=3, suppress=bool(rng.integers(0, 2)), floatmode="fixed")
        np.random.seed(int(rng.integers(0, 1000)))
        random.seed(int(rng.integers(0, 1000)))
        decimal.getcontext().prec = int(rng.integers(1, 60))
        os.chdir(str(rng.choice([ctx.work_dir, "/", "/tmp"])))
        os.environ["TZ"] = str(rng.choice(["UTC", "XST-13:30", "YST+11YDT"]))
        clock.tzset()
        locale.setlocale(locale.LC_ALL, str(rng.choice(["C", "C.UTF-8"])))
        if rng.random() < 0.5:
            gc.disable()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = process_state()
            for (name, func, args), result, request in zip(jobs, want, requests):
                got = func(*args)
                after = process_state()
                for key, value in before.items():
                    ctx.check(after[key] == value, f"the {key} changed by " + name, got=after[key], want=value, request=request)
                same(ctx, "call with other settings of the process: " + name, got, result, request=request)
                ctx.count("settings compared", len(before))
    finally:
        np.seterr(**saved[0])
        np.set_printoptions(**saved[1])
        np.random.set_state(saved[2])
        random.setstate(saved[3])
        os.chdir(saved[4])
        os.environ.pop("TZ", None)
        if saved[5] is not None:
            os.environ["TZ"] = saved[5]
        clock.tzset()
        locale.setlocale(locale.LC_ALL, language)
        decimal.setcontext(context)
        if gcstate:
            gc.enable()
    ctx.key(requests)


@REG.family(quick=25, thorough=400)
def threads(ctx, rng):
    """ concurrent threads """
    pristine()
    num = int(rng.integers(2, 7))
    pool = [(s, str(rng.choice(["any", "model", "qd", "native", "published", "loader"], p=[.3, .3, .15, .1, .1, .05])))
            for s in seeds(rng, 8)]
    jobs = [tabular(*request) for request in pool]     # shared by the threads
    want = [expected(ctx, request) for request in pool]
    plans = [rng.integers(0, len(pool), 20) for _ in range(num)]
    bad, switches = [], []
    barrier = threading.Barrier(num)
    last = [None]

    def run(plan, ident):
        barrier.wait()
        for pos in plan:
            name, func, args = jobs[pos]
            try:
                got = func(*args)
            except Exception as exc:  # pylint: disable=broad-except
                bad.append((name, pos, repr(exc)))
                return
            if last[0] != ident:
                switches.append(1)
                last[0] = ident
            if not identical(got, want[pos]):
                bad.append((name, pos, got))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        workers = [threading.Thread(target=run, args=(plan, i)) for i, plan in enumerate(plans)]
        for item in workers:
            item.start()
        for item in workers:
            item.join()
    finally:
        sys.setswitchinterval(old)
    ctx.note(threads=num, pool=pool)
    ctx.count("thread_switches_between_results", len(switches))
    ctx.count("threaded_calls", sum(len(p) for p in plans))
    if bad:
        name, pos, got = bad[0]
        ctx.fail("call in a concurrent thread returned a different result", function=name,
                 request=pool[pos], got=got, want=want[pos])
    ctx.check(True, "threads")
    ctx.key(num, pool)


@REG.family(quick=400, thorough=6000)
def field_lines(ctx, rng):
    """ options, models and points passed to the field line tracing """
    name, model, time, options = c26.random_case(rng)
    frames = (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
    point = c26.start_point(rng, frames[0])
    points = [point, c26.start_point(rng, frames[0])]
    options = dict(options)
    if rng.random() < 0.3:
        options["scale"] = np.array([1.0, 1.0, 1.0])
    if rng.random() < 0.2:
        options["radius"] = 6371.2
    trace = {"step": float(rng.choice([10.0, 100.0, 1000.0])), "max_steps": int(rng.integers(0, 12))}
    if rng.random() < 0.4:
        trace["min_radius"] = 6300.0
    kwargs = {"input_coordinate_system": frames[0], "output_coordinate_system": frames[1], "trace_options": trace}
    if options or rng.random() < 0.5:
        kwargs["model_options"] = options
    ctx.note(model=name, time=time, points=points, **kwargs)
    location = gen.sph(rng, (2,), 6371, 7000)
    settings = {k: v for k, v in options.items() if k != "radius"}
    found = snapshot([model, kwargs, options, trace] + points)

    def evaluate_all():
        """ lines and a common model evaluation with the same options """
        return [trace_field_line(model, time, item, **kwargs) for item in points], model.eval(time, location, **settings)

    before = model.eval(time, location, **settings)
    first = evaluate_all()
    unmodified(ctx, "trace_field_line", found)
    same(ctx, "evaluation after the tracing: " + name, first[1], before)
    fresh = [trace_field_line(model, time, np.array(item), **{
        **kwargs, "trace_options": dict(trace), **({"model_options": dict(options)} if "model_options" in kwargs else {})})
        for item in points]
    same(ctx, "tracing with new options: " + name, first[0], fresh)
    keep = [np.array(v) for v in flat(first)]
    for arr in flat(first):
        if arr.flags.writeable:
            arr[...] = np.nan
    unmodified(ctx, "trace_field_line (after the result was overwritten)", found)
    same(ctx, "repeated tracing: " + name, evaluate_all(), keep)
    ctx.count("traced " + name.split()[0])
