"""C02 calls leak neither memory nor references"""
import gc
import os
import sys
import numpy as np
from vk.core import Registry
from vk import calls, gen, shim
from vk.checks import c01, c04
from vk.ref.apex import ApexFile
from eoxmagmod import _pyqd

REG = Registry(
    scale=2,
    rule="a case is a call (or a short sequence of calls) repeated many times: successful, rejected, or with the k-th "
         "(or the k-th and all following) memory allocation inside of the call denied; the live heap blocks and bytes "
         "of the process (counted by interposed allocation functions), the reference counts of all objects passed in and "
         "of the array types, and the open files must not grow; a denied allocation must lead to an exception (or to the "
         "unchanged result) and the following calls must be unaffected",
    assumptions=[
        "growth which is not repeated by two further rounds of repetitions is attributed to caches filled once",
        "allocation failures inside of the Fortran runtime library (opening and parsing of the coefficients files) "
        "terminate the process by design of that library and are not injected",
    ],
    env={"LD_PRELOAD": shim.path(preload=True), "PYTHONMALLOC": "malloc", "OMP_NUM_THREADS": "1"},
)
DTYPES = [np.dtype(v) for v in ("f8", "i4", "i8", "f4", "?", "O")]
_STATE = {}


def memory():
    """ interposed allocation functions """
    if "mem" not in _STATE:
        gc.collect()
        gc.freeze()
        gc.disable()
        _STATE["mem"] = shim.Memory()
        # the counters have to react
        mem = _STATE["mem"]
        before = mem.live()
        hold = [bytearray(5000) for _ in range(20)]
        after = mem.live()
        assert after[0] - before[0] >= 20 and after[1] - before[1] >= 100000, "allocations are not counted"
        del hold
        try:
            mem.call(np.zeros, (100000,), 1, True)
        except MemoryError:
            pass
        else:
            raise AssertionError("allocation failures are not injected")
    return _STATE["mem"]


def watched(args):
    """ objects whose reference counts are followed """
    out, stack = [], list(args)
    while stack:
        item = stack.pop()
        if isinstance(item, (list, tuple)) and type(item) in (list, tuple):
            stack.extend(item)
        if isinstance(item, (bool, int, str, bytes, type(None), type(Ellipsis))) and not isinstance(item, bool):
            if sys.getrefcount(item) > 100000:  # immortal
                continue
        out.append(item)
    seen = {id(v): v for v in out}
    return list(seen.values())


def unsuitable(args):
    """ objects changing when they are read; classes (numpy leaks when their
    attributes are examined) """
    return any(isinstance(v, (c01.Mutating, type)) for v in watched(args))


def native(args):
    """ as watched(), including the array types; for calls not executing any
    Python code (numpy itself does not release some of the references) """
    items = watched(args)
    return items + (DTYPES if not any(isinstance(v, c01.Odd) for v in items) else [])


def conversions(args):
    """ what numpy does to convert the arguments """
    items = watched(args)

    def run():
        for item in items:
            for dtype in ("f8", "i4"):
                quiet(np.array, (item, dtype))

    return run


def counts(objects):
    """ reference counts """
    return [sys.getrefcount(v) for v in objects]


def open_files():
    """ number of the open files """
    return len(os.listdir("/proc/self/fd"))


def steady(ctx, name, action, objects, repeat, files=False, control=None):
    """ repeated action does not accumulate anything (unless the control
    action does) """
    what = growth(ctx, action, objects, repeat, files)
    if what is None:
        return
    if control and growth(ctx, control, objects, repeat, False):
        ctx.count("growth_caused_by_numpy")
        return
    ctx.fail(f"{name}: {what[-1]}", rounds=what)


def growth(ctx, action, objects, repeat, files):
    """ what has been accumulated by the repeated action """
    mem = memory()
    for _ in range(3):
        action()
    gc.collect()
    rounds = 0
    grown = []
    # (the interpreter itself makes some dozens of objects at times, longer
    # rounds tell this from whatever is left by each of the calls)
    for number in (repeat, repeat, 2 * repeat, 10 * repeat, 20 * repeat):
        refs = counts(objects)
        fds = open_files() if files else 0
        blocks, size = mem.live()
        for _ in range(number):
            action()
        if rounds or mem.live()[0] - blocks >= number:
            gc.collect()
        blocks, size = mem.live()[0] - blocks, mem.live()[1] - size
        new = counts(objects)
        rounds += 1
        ctx.count("repeated_calls", number)
        what = None
        changed = [(i, b - a) for i, (a, b) in enumerate(zip(refs, new)) if abs(b - a) >= number]
        if changed:
            pos, diff = changed[0]
            what = f"reference count of {type(objects[pos]).__name__} changed by {diff} in {number} calls"
        elif blocks >= number:
            what = f"{blocks} more heap blocks ({size} bytes) after {number} calls"
        elif size >= 16 * number and blocks >= 0 and size >= 4096:
            what = f"{size} more heap bytes after {number} calls"
        elif files and open_files() - fds >= number:
            what = f"{open_files() - fds} more open files after {number} calls"
        ctx.count("memory_measurements")
        if what is None:
            return None
        grown.append(what)
    return grown


def quiet(func, args):
    """ call ignoring the result and ordinary exceptions """
    try:
        func(*args)
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc)
    return None


def invalid(rng, call, objects=True):
    """ call changed to an (often) invalid one; arguments only """
    args = dict(call.args)
    keys = list(args)
    structural = [k for k in ("coef_set", "coef_set_list") if k in args]
    how = int(rng.integers(0, 5)) if objects else int(rng.choice([1, 2, 4]))
    if structural and rng.random() < 0.5:
        how = 3
    if how == 0:
        for key in rng.permutation(keys)[:int(rng.integers(1, 3))]:
            args[key] = c01.odd(rng, args[key])
    elif how == 1:
        key = keys[rng.integers(len(keys))]
        if isinstance(args[key], np.ndarray):
            args[key] = c01.array_of(rng, c01.any_dims(rng, args[key].shape))
        elif isinstance(args[key], int):
            args[key] = int(rng.choice([-1, -2, 3, 77, 2**31 - 1, -2**31, 2**31, 2**40]))
        elif isinstance(args[key], (tuple, list)):
            args[key] = damaged(rng, args[key], objects)
        elif objects:
            args[key] = c01.odd(rng, args[key])
    elif how == 2:
        for key in call.tails:
            value = args[key]
            if value.ndim and rng.random() < 0.5:
                args[key] = resized(rng, value)
    elif how == 3:
        if structural:
            args[structural[0]] = damaged(rng, args[structural[0]], objects)
        else:
            key = keys[rng.integers(len(keys))]
            args[key] = c01.odd(rng, args[key])
    args = c01.cap(call, args)
    out = list(args.values())
    if how == 4:
        out = out[:int(rng.integers(0, len(out) + 1))] if rng.random() < 0.5 else out + [0]
    return tuple(out)


def resized(rng, value):
    """ the same type of values, one axis longer or shorter, or one axis more or less """
    pos = int(rng.integers(value.ndim))
    how = int(rng.integers(0, 5))
    if how < 2:
        return np.concatenate([value, value[(slice(None),) * pos + (slice(0, 1),)]], axis=pos)
    if how < 4:
        return value[(slice(None),) * pos + (slice(0, -1),)]
    return value[..., None] if rng.random() < 0.5 or not len(value) else value[0]


def damaged(rng, value, objects=True):
    """ changed sequence """
    out = list(value)
    if not out:
        return value
    pos = int(rng.integers(len(out)))
    how = int(rng.integers(0, 5))
    if how == 4:
        how = 2
    if how == 0:
        del out[pos]
    elif how == 1 and objects:
        out[pos] = c01.odd(rng, out[pos])
    elif how == 2 and isinstance(out[pos], (tuple, list)):
        out[pos] = damaged(rng, out[pos], objects)
    elif how == 2 and isinstance(out[pos], np.ndarray) and out[pos].ndim:
        out[pos] = resized(rng, out[pos]) if rng.random() < 0.7 else c01.array_of(rng, c01.any_dims(rng, out[pos].shape))
    else:
        out = out + [out[pos]] * int(rng.integers(1, 20))
    return tuple(out) if rng.random() < 0.8 else out


def variant_of(rng, call):
    """ arguments with other layouts and types, converted by the function """
    out = []
    for value in call.args.values():
        if isinstance(value, np.ndarray) and value.ndim < 8 and rng.random() < 0.5:
            how = int(rng.integers(0, 4))
            if how == 0:
                value = value.astype(rng.choice(["f4", ">f8", "i4"])) if np.all(np.isfinite(value)) and \
                    np.all(np.abs(value) < 1e9) else value
            elif how == 1:
                value = value.tolist()
            elif value.size:
                value = gen.relayout(rng, value)[1]
        out.append(value)
    return tuple(out)


@REG.family(quick=900, thorough=15000)
def valid(ctx, rng):
    """ successful calls """
    name = list(calls.BUILDERS)[ctx.index % len(calls.BUILDERS)]
    call = calls.build(rng, name, gen.shape(rng))
    args = variant_of(rng, call)
    ctx.note(function=name, args=args)
    ctx.journal(function=name, args=args)
    ctx.key(name, repr(ctx.notes)[:1000])
    if quiet(call.func, args) is None:
        ctx.count("successful " + name)
    steady(ctx, name, lambda: quiet(call.func, args), native(args), 12, control=conversions(args))


@REG.family(quick=4000, thorough=80000)
def rejected(ctx, rng):
    """ rejected calls """
    name = list(calls.BUILDERS)[ctx.index % len(calls.BUILDERS)]
    call = calls.build(rng, name, gen.shape(rng))
    args = invalid(rng, call)
    ctx.note(function=name, args=args)
    ctx.journal(function=name, args=args)
    ctx.key(name, repr(ctx.notes)[:1000])
    if unsuitable(args):
        return
    error = quiet(call.func, args)
    ctx.check(error is not SystemError, "SystemError: inconsistent error state")
    ctx.count(f"{'rejected' if error else 'accepted'} {name}")
    steady(ctx, name, lambda: quiet(call.func, args), native(args), 10, control=conversions(args))


def leaves(value, path=()):
    """ all arrays of the (nested) arguments """
    if isinstance(value, np.ndarray):
        return [path] if value.ndim else []
    if isinstance(value, (tuple, list)):
        return [p for i, v in enumerate(value) for p in leaves(v, path + (i,))]
    return []


def replaced(value, path, func):
    """ arguments with one nested item replaced """
    if not path:
        return func(value)
    return type(value)(replaced(v, path[1:], func) if i == path[0] else v for i, v in enumerate(value))


@REG.family(quick=2000, thorough=40000)
def structures(ctx, rng):
    """ one of the arrays has another size, or one of the nested items another
    value, everything else is fine """
    name = list(calls.BUILDERS)[ctx.index % len(calls.BUILDERS)]
    if rng.random() < 0.4:
        name = str(rng.choice(["shevaltemp", "sheval2dfs"]))
    args = tuple(calls.build(rng, name, gen.shape(rng)).args.values())
    paths = leaves(args)
    if not paths:
        return
    nested = [p for p in paths if len(p) > 1]
    if nested and rng.random() < 0.7:
        paths = nested
    path = paths[rng.integers(len(paths))]
    args = replaced(args, path, lambda v: resized(rng, v))
    if len(path) > 1 and rng.random() < 0.2:
        args = replaced(args, path[:-1], lambda v: type(v)(v[:rng.integers(0, len(v))]))
    ctx.note(function=name, path=path, args=args)
    ctx.journal(function=name, args=args)
    ctx.key(name, repr(ctx.notes)[:1000])
    func = getattr(calls.build(rng, name, ()), "func")
    error = quiet(func, args)
    ctx.check(error is not SystemError, "SystemError: inconsistent error state")
    ctx.count(f"structure {'rejected' if error else 'accepted'} {name}")
    ctx.count(f"array {name} {'.'.join(str(i) for i in path[:1] + path[-1:])}")
    steady(ctx, name, lambda: quiet(func, args), native(args), 10, control=conversions(args))


@REG.family(quick=150, thorough=2500)
def sequences(ctx, rng):
    """ repeated sequences of various calls """
    items = []
    for _ in range(int(rng.integers(2, 6))):
        call = calls.build(rng, None, gen.shape(rng))
        args = invalid(rng, call) if rng.random() < 0.5 else variant_of(rng, call)
        if not unsuitable(args):
            items.append((call.func, args))
    ctx.note(functions=[f.__name__ for f, _ in items], args=[a for _, a in items])
    ctx.journal(functions=[f.__name__ for f, _ in items])
    ctx.key(repr(ctx.notes)[:1000])

    def run():
        for func, args in items:
            quiet(func, args)

    steady(ctx, "sequence", run, watched([a for _, a in items]), 10,
           control=conversions([a for _, a in items]))


@REG.family(quick=500, thorough=8000)
def denied(ctx, rng):
    """ allocation failures inside of the calls """
    mem = memory()
    name = list(calls.BUILDERS)[ctx.index % len(calls.BUILDERS)]
    call = calls.build(rng, name, gen.shape(rng))
    # conversions of the arguments are a part of the call
    args = variant_of(rng, call) if rng.random() < 0.8 else invalid(rng, call, objects=False)
    if unsuitable(args):
        return
    ctx.note(function=name, args=args)
    ctx.key(name, repr(ctx.notes)[:1000])
    objects = watched(args)
    try:
        expected = call.func(*args)
    except Exception as exc:  # pylint: disable=broad-except
        expected = type(exc)
    quiet(call.func, args)
    try:
        mem.call(call.func, args)
    except Exception:  # pylint: disable=broad-except
        pass
    total = abs(mem.number)
    ctx.count("allocations_counted", total)
    limit = 60 if ctx.thorough else 24
    picks = list(range(1, total + 1)) if total <= limit else \
        sorted({1, 2, 3, total, *rng.integers(1, total + 1, limit).tolist()})
    for pick in picks:
        for following in (False, True):
            ctx.journal(function=name, args=args, denied=pick, following=following)
            outcome = []

            def run():
                try:
                    result = mem.call(call.func, args, pick, following)
                except MemoryError:
                    outcome.append(None)
                except Exception as exc:  # pylint: disable=broad-except
                    outcome.append(exc)
                else:
                    outcome.append((result,))

            run()
            hit, first = mem.number < 0, outcome[0]
            if not hit:
                ctx.count("failure_not_reached")
                continue
            ctx.count("allocation_failures")
            ctx.count("failed " + name)
            if isinstance(first, tuple):
                if isinstance(expected, type):
                    ctx.fail(f"{name}: rejected call succeeded when an allocation failed", denied=pick)
                ctx.check(calls.same(first[0], expected), f"{name}: result affected by an allocation failure", denied=pick,
                          following=following)
                ctx.count("survived_failures")
            elif first is not None:
                ctx.check(not isinstance(first, SystemError), f"{name}: {first!r} when an allocation failed", denied=pick,
                          following=following)
            first = None
            outcome.clear()
            def again():
                run()
                outcome.clear()
            steady(ctx, f"{name} with failed allocation {pick}{' and later' if following else ''}", again, objects, 6)
    # unaffected by what has happened
    try:
        got = call.func(*args)
    except Exception as exc:  # pylint: disable=broad-except
        got = type(exc)
    if isinstance(expected, type):
        ctx.check(got == expected, "rejected differently after allocation failures", got=repr(got), expected=repr(expected))
    else:
        ctx.check(not isinstance(got, type) and calls.same(got, expected), "result changed by earlier allocation failures")


@REG.family(quick=250, thorough=4000)
def public(ctx, rng):
    """ public functions """
    name = list(c04.PYTHON)[ctx.index % len(c04.PYTHON)]
    func, args, _ = c04.PYTHON[name](rng, gen.shape(rng))
    args = tuple(v for v, _ in args.values())
    if rng.random() < 0.3:
        args = tuple(c01.odd(rng, v) if rng.random() < 0.4 else v for v in args)
    if unsuitable(args):
        return
    ctx.note(function=name, args=args)
    ctx.journal(function=name, args=args)
    ctx.key(name, repr(ctx.notes)[:1000])
    with np.errstate(all="ignore"):
        steady(ctx, name, lambda: quiet(func, args), watched(args), 10, control=conversions(args))


@REG.family(quick=120, thorough=2000)
def models(ctx, rng):
    """ model evaluation """
    name, model, _ = c04.model_for(rng)
    count = int(rng.integers(0, 5))
    times = rng.uniform(4800, 5600, count)
    coords = gen.sph(rng, (count,), 6400, 9000)
    if rng.random() < 0.3:
        coords = coords[..., :int(rng.integers(0, 3))]
    options = {}
    if rng.random() < 0.3:
        options["max_degree"] = int(rng.choice([-1, 0, 3, 8]))
    if rng.random() < 0.3:
        options["scale"] = [np.ones(3), np.ones(2), "x"][rng.integers(3)]
    ctx.note(model=name, times=times, coords=coords, options=options)
    ctx.journal(model=name)
    ctx.key(name, repr(ctx.notes)[:1000])
    steady(ctx, "model " + name, lambda: quiet(lambda: model.eval(times, coords, **options), ()), watched([times, coords]), 8)


@REG.family(quick=80, thorough=1200)
def qd_files(ctx, rng):
    """ alternating coefficient files, readable and damaged """
    paths = []
    for pos in range(int(rng.integers(2, 5))):
        nmax = int(rng.integers(1, 7))
        mmax, lmax, num = int(rng.integers(1, nmax + 1)), int(rng.integers(0, 5)), int(rng.integers(1, 5))
        size = mmax * (2 * nmax - mmax + 1) + nmax + 1
        item = ApexFile(np.sort(rng.choice(np.arange(1980, 2030), num, False)).astype(float), nmax, mmax, lmax,
                        rng.normal(0, 1, (6, num, lmax + 1, size)))
        path = os.path.join(ctx.work_dir, f"apex{pos}.txt")
        item.write(path, rng)
        if rng.random() < 0.5:
            with open(path, encoding="ascii") as file:
                text = file.read()
            how = int(rng.integers(0, 4))
            text = [text[:int(rng.integers(0, len(text)))], text.replace("\n", " x\n", 1), "", "0 0 0 0 0\n" + text][how]
            with open(path, "w", encoding="ascii") as file:
                file.write(text)
        paths.append(path)
    if rng.random() < 0.3:
        paths.append(os.path.join(ctx.work_dir, "missing.txt"))
    args = [np.array([10.0, 20.0]), np.array([30.0, -20.0]), np.array([6500.0, 6800.0]), np.array([1990.0, 2020.0])]
    ctx.note(files=[os.path.basename(p) for p in paths])
    ctx.journal(files=paths)
    ctx.key(repr(rng.integers(1 << 60)))

    def run():
        for path in paths:
            error = quiet(_pyqd.eval_qdlatlon, (*args, path, True))
            ctx.count("unreadable_files" if error else "readable_files")

    run()
    steady(ctx, "eval_qdlatlon files", run, watched([*args, *paths]), 6, files=True)


@REG.family(quick=60, thorough=1000)
def qd_denied(ctx, rng):
    """ allocation failures while the coefficients are loaded """
    mem = memory()
    paths = []
    for pos in range(2):
        nmax = int(rng.integers(1, 8))
        mmax, lmax, num = int(rng.integers(1, nmax + 1)), int(rng.integers(0, 5)), int(rng.integers(1, 5))
        size = mmax * (2 * nmax - mmax + 1) + nmax + 1
        item = ApexFile(np.sort(rng.choice(np.arange(1980, 2030), num, False)).astype(float), nmax, mmax, lmax,
                        rng.normal(0, 1, (6, num, lmax + 1, size)))
        paths.append(os.path.join(ctx.work_dir, f"apex{pos}.txt"))
        item.write(paths[-1], rng)
    args = [np.array([10.0, 20.0]), np.array([30.0, -20.0]), np.array([6500.0, 6800.0]), np.array([1990.0, 2020.0])]
    base = bool(rng.integers(2))
    one, two = [(*args, path, base) for path in paths]
    ctx.note(files=[open(p, encoding="ascii").readline().split() for p in paths], base=base)
    ctx.key(repr(ctx.notes))
    func = _pyqd.eval_qdlatlon
    expected = [func(*one), func(*two)]
    func(*one)
    mem.call(func, two)
    total = abs(mem.number)
    ctx.count("allocations_counted", total)
    for pick in range(1, total + 1):
        for following in (False, True):
            ctx.journal(denied=pick, following=following)

            def run():
                func(*one)
                try:
                    mem.call(func, two, pick, following)
                except Exception as exc:  # pylint: disable=broad-except
                    ctx.check(not isinstance(exc, SystemError), f"{exc!r} when an allocation failed")
                    ctx.count("failed_loads")

            run()
            ctx.check(mem.number < 0, "allocation failure not reached", denied=pick)
            order = rng.permutation(2)
            for pos in order:
                ctx.check(calls.same(func(*(one, two)[pos]), expected[pos]),
                          "result changed by an allocation failure while the coefficients were loaded", denied=pick,
                          following=following)
            steady(ctx, f"loading with failed allocation {pick}", run, watched(one + two), 4, files=True)
