"""C01 native calls are memory safe and never take the interpreter down"""
import os
import numpy as np
from vk.core import Registry
from vk import calls, gen
from vk.checks import c04, c28
from vk.ref.apex import ApexFile
import eoxmagmod
from eoxmagmod import _pymm, _pyqd, _pysunpos, _pytimeconv
from eoxmagmod.magnetic_model.field_lines import trace_field_line

REG = Registry(
    scale=2,
    rule="a case is one call of a compiled function (or of a public function reaching one) with valid, hostile or "
         "invalid arguments executed by the code instrumented by the address and undefined behaviour sanitizers and "
         "Fortran bounds checks; any report, crash, process exit, endless computation or inconsistent exception "
         "state is a violation",
    variant="asan",
    assumptions=[
        "accesses inside of the memory blocks owned by the arguments but outside of the array view are not detected",
        "sizes of the results are limited by the available memory (at most hundreds of megabytes)",
    ],
    env={"OMP_NUM_THREADS": "1"},
)
TINY = float(np.finfo(float).tiny)
HOSTILE = np.array([
    0.0, -0.0, 1.0, -1.0, 90.0, -90.0, 180.0, 360.0, np.nan, np.inf, -np.inf, 5e-324, TINY, 1e-300, 1e300, -1e300,
    1.7e308, -1.7e308, 2.0**31, -2.0**31, 2.0**31 - 1, 2.0**53, 2.0**63, -2.0**63, 2.0**64, 1e18, -1e18, 1e10, -1e10, 1e6,
    -1e6, 4e5, -4e5, 123456.789, 730000.5, -730000.5, -2451545.5, 2932532.5, 3e6, 1e-9, 6371.2, 6378137.0, 90.00000001,
    -1721425.5, 36890.0, -36525.0, -145731.0, 2147483647.5, -2147483648.5, 9.3e18, np.pi, 1e5, 1e38, 3.5e38, -3.5e38, 1e-46,
])


def hostile(rng, value, prob=0.5):
    """ replace some elements by special values """
    out = np.array(value, dtype=float)
    mask = rng.random(out.shape) < prob
    repl = rng.choice(HOSTILE, out.shape)
    near = rng.random(out.shape) < 0.2
    with np.errstate(all="ignore"):
        repl = np.where(near, np.nextafter(repl, rng.choice([-np.inf, np.inf], out.shape)), repl)
        wide = rng.choice([-1.0, 1.0], out.shape) * 10.0 ** rng.uniform(-320, 308, out.shape)
    repl = np.where(rng.random(out.shape) < 0.2, wide, repl)
    return np.where(mask, repl, out)


def attempt(ctx, name, func, *args, **kwargs):
    """ a result or an exception """
    ctx.check(True, "call")
    try:
        out = func(*args, **kwargs)
    except SystemError as error:
        # raised by the interpreter if a function returns inconsistent exception state
        ctx.fail(f"{name}: inconsistent state of the exceptions: {error}")
    except Exception as error:  # pylint: disable=broad-except
        ctx.count("exception " + type(error).__name__)
        ctx.count("rejected calls")
        return None
    ctx.count("answered calls")
    for item in out if isinstance(out, tuple) else (out,):
        if isinstance(item, np.ndarray):
            # touch all elements
            ctx.key(name, item.shape, item.tobytes()[:64])
            item.sum()
    return out


def cap(call, args):
    """ keep the size of the result bounded """
    for name in ("degree",):
        if name in args and isinstance(args[name], (int, np.integer)) and args[name] > 300 and np.prod(call.shape) > 0:
            if call.name in ("relradpow", "loncossin"):
                args[name] = min(args[name], 20000)
            elif call.name == "legendre" and args[name] < 47000:
                args[name] = 300
    return args


@REG.family(quick=6000, thorough=120000)
def values(ctx, rng):
    """ hostile values of the numbers """
    call = calls.build(rng, None, c04.any_shape(rng))
    args, lead = call.broadcasted(rng)
    prob = float(rng.choice([0.1, 0.5, 1.0]))
    for name in call.tails:
        if rng.random() < 0.7:
            args[name] = hostile(rng, args[name], prob)
    for name, value in args.items():
        if name in call.structural and rng.random() < 0.4:
            args[name] = hostile(rng, value, prob)
        elif name in ("scale_potential", "scale1", "scale2", "reference_radius", "scale_gradient") and rng.random() < 0.4:
            args[name] = hostile(rng, value, prob)
            args[name] = float(args[name]) if np.ndim(value) == 0 else args[name]
        elif name == "coef_set" and rng.random() < 0.4:
            args[name] = (hostile(rng, value[0], prob), value[1], *value[2:4], *(float(hostile(rng, v)) for v in value[4:]))
        elif name == "coef_set_list" and rng.random() < 0.5:
            args[name] = [(hostile(rng, t, prob) if rng.random() < 0.5 else t, hostile(rng, c, prob), nm, order)
                          for t, c, nm, order in value]
    if rng.random() < 0.5:
        for name in lead:
            if np.size(args[name]):
                args[name] = gen.relayout(rng, args[name])[1]
    ctx.note(function=call.name, args=args)
    ctx.journal(function=call.name, args=args)
    attempt(ctx, call.name, call.func, *args.values())
    ctx.count("function " + call.name)


@REG.family(quick=4000, thorough=80000)
def integers(ctx, rng):
    """ degrees and options at their limits """
    call = calls.build(rng, None, gen.shape(rng))
    args, _ = call.broadcasted(rng)
    for name, value in args.items():
        if name in call.tails or rng.random() < 0.3:
            continue
        if isinstance(value, (int, np.integer)) and not isinstance(value, bool):
            args[name] = int(rng.choice([
                -1, 0, 1, 2, 3, 5, 17, 60, 255, 300, 46339, 46340, 46341, 65535, 65536, 2**20 - 1, 2**20, 2**31 - 1, 2**31 - 2,
                -2**31, -2**20, -2**20 - 1, -300, 2**62, -2**63]))
        elif isinstance(value, bool):
            args[name] = [True, False, 0, 1, 2, None, "", "x", 0.0, np.nan, [], [0]][rng.integers(12)]
        elif name == "coef_set":
            spec = list(value)
            for pos in (2, 3):
                if rng.random() < 0.6:
                    spec[pos] = int(rng.choice([-1, 0, 7, -50, 1000, -1000, 2**20 - 1, 2**20, -2**20, 2**31 - 1, -2**31, 2**40]))
            args[name] = tuple(spec)
        elif name == "coef_set_list":
            args[name] = [(t, c, nm, int(rng.choice([-1, 0, 1, 2, 3, 100, 2**31 - 1, -2**31, 2**40]))
                           if rng.random() < 0.5 else order) for t, c, nm, order in value]
            if rng.random() < 0.3:
                # short series held by arrays of the exact size
                num = int(rng.integers(0, 3))
                args[name] = [(np.array(t[:num]), np.array(c[:, :num]), nm, order) for t, c, nm, order in args[name]]
    args = cap(call, args)
    ctx.note(function=call.name, args=args)
    ctx.journal(function=call.name, args=args)
    attempt(ctx, call.name, call.func, *args.values())
    ctx.count("function " + call.name)


def any_dims(rng, base=()):
    """ random dimensions """
    if base and rng.random() < 0.6:
        out = list(base)
        for _ in range(rng.integers(1, 3)):
            if not out:
                break
            pos = int(rng.integers(len(out)))
            how = rng.integers(0, 4)
            if how == 0:
                del out[pos]
            elif how == 1:
                out.insert(pos, int(rng.integers(0, 4)))
            else:
                out[pos] = max(0, out[pos] + int(rng.choice([-2, -1, 1, 2, 5])))
        return out[:32]
    ndim = int(rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 15, 16, 17, 30, 31, 32]))
    return [int(v) for v in rng.choice([0, 1, 1, 1, 2, 3], ndim, p=[0.05, 0.35, 0.25, 0.15, 0.12, 0.08])]


def array_of(rng, dims):
    """ array of the dimensions and of a random layout """
    if np.prod(np.asarray(dims, dtype=float)) > 2e5:
        dims = [min(v, 1) for v in dims]
    out = rng.normal(0, 50, dims)
    how = rng.integers(0, 5)
    if how == 0:
        return np.asfortranarray(out)
    if how == 1 and out.ndim:
        return out[(slice(None, None, -1),) * out.ndim]
    if how == 2:
        return np.broadcast_to(rng.normal(), dims)
    if how == 3:
        return out.astype(rng.choice(["f4", "i4", "i1", ">f8", "u8", "f2", "longdouble", "bool"]))
    return out


@REG.family(quick=6000, thorough=120000)
def shapes(ctx, rng):
    """ arrays of any dimensions """
    call = calls.build(rng, None, gen.shape(rng))
    args = dict(call.args)
    names = list(call.tails) + list(call.structural)
    for name in names:
        if rng.random() < 0.6:
            args[name] = array_of(rng, any_dims(rng, np.shape(args[name])))
    if rng.random() < 0.15:
        # all of them with the same leading dimensions
        dims = any_dims(rng)
        for name, tail in call.tails.items():
            args[name] = array_of(rng, [*dims, *np.shape(call.args[name])[np.ndim(call.args[name]) - tail:]][-32:])
    for name, value in args.items():
        if name == "coef_set" and rng.random() < 0.6:
            coef, terms, *rest = value
            if rng.random() < 0.6:
                coef = array_of(rng, any_dims(rng, np.shape(coef)))
            if rng.random() < 0.6:
                terms = any_terms(rng, terms)
            args[name] = (coef, terms, *rest)
        elif name == "coef_set_list" and rng.random() < 0.6:
            sets = []
            for time, coef, terms, order in value:
                if rng.random() < 0.4:
                    time = array_of(rng, any_dims(rng, np.shape(time)))
                if rng.random() < 0.4:
                    coef = array_of(rng, any_dims(rng, np.shape(coef)))
                if rng.random() < 0.4:
                    terms = any_terms(rng, terms)
                sets.append((time, coef, terms, order))
            args[name] = sets * int(rng.choice([1, 1, 1, 2, 6, 17]))
        elif name == "scale_gradient" and rng.random() < 0.5:
            args[name] = array_of(rng, any_dims(rng, (3,)))
    ctx.note(function=call.name, shapes={k: np.shape(v) for k, v in args.items() if isinstance(v, np.ndarray)}, args=args)
    ctx.journal(function=call.name, shapes={k: np.shape(v) for k, v in args.items() if isinstance(v, np.ndarray)})
    attempt(ctx, call.name, call.func, *args.values())
    ctx.count("function " + call.name)


def any_terms(rng, terms):
    """ (n, m) indices """
    how = int(rng.integers(0, 6))
    if how == 0:
        return array_of(rng, any_dims(rng, np.shape(terms)))
    out = np.array(terms)
    if how == 1 and len(out):
        out[rng.integers(len(out)), rng.integers(2)] = int(rng.choice(
            [-1, -5, 7, 200, 46340, 2**31 - 1, -2**31, 65536, 1000]))
        if abs(int(out.max(initial=0))) < 47000 and out.max(initial=0) > 400:
            out = np.where(out > 400, 400, out)
        return out
    if how == 2:
        return out.astype(rng.choice(["i8", "i2", "i1", "u1", ">i4", "f8", "u8"]))
    if how == 3:
        return np.asfortranarray(out)
    if how == 4:
        return out[::-1, ::-1]
    return out[rng.integers(0, len(out), len(out))] if len(out) else out


class Odd:
    """ objects with misbehaving protocols """

    def __init__(self, kind):
        self.kind = kind

    def __float__(self):
        if self.kind == 0:
            raise RuntimeError("float")
        return 1.5

    def __index__(self):
        if self.kind == 1:
            raise RuntimeError("index")
        return 1

    def __bool__(self):
        if self.kind == 2:
            raise RuntimeError("bool")
        return True

    def __len__(self):
        if self.kind == 3:
            raise RuntimeError("len")
        return 3 if self.kind != 5 else 2**40

    def __getitem__(self, index):
        if self.kind == 4 and index > 0:
            raise RuntimeError("item")
        if index >= 3:
            raise IndexError
        return 1.0

    def __array__(self, dtype=None, copy=None):
        if self.kind == 6:
            raise RuntimeError("array")
        if self.kind == 7:
            return "not an array"
        return np.ones(3)


class Mutating(list):
    """ sequence changing its length when it is read """

    def __getitem__(self, index):
        if len(self) > 1:
            self.pop()
        return super().__getitem__(index)

    def __iter__(self):
        while len(self):
            yield self.pop()


class Sub(np.ndarray):
    """ array subclass """


def odd(rng, value):
    """ any object instead of the value """
    options = [
        lambda: None, lambda: "text", lambda: b"bytes", lambda: "", lambda: object(), lambda: {}, lambda: set(), lambda: [],
        lambda: (), lambda: [[]], lambda: Odd(int(rng.integers(0, 9))), lambda: Mutating([1.0, 2.0, 3.0]), lambda: 2**100,
        lambda: -2**100, lambda: 1e400, lambda: 1j, lambda: np.ones(3) * 1j, lambda: np.array([1, "a"], dtype=object),
        lambda: np.array([None, None, None], dtype=object), lambda: np.array(["a", "b"]), lambda: np.zeros(3, dtype="V8"),
        lambda: np.zeros(3, dtype=[("a", "f8"), ("b", "i4")]), lambda: np.datetime64("2000-01-01"),
        lambda: np.ma.masked_array([1.0, 2.0, 3.0], mask=[0, 1, 0]), lambda: np.matrix(np.ones((3, 3))),
        lambda: np.asarray(value, dtype=float).view(Sub) if _numeric(value) else None, lambda: iter([1, 2, 3]),
        lambda: range(3), lambda: memoryview(b"12345678"), lambda: bytearray(24), lambda: type, lambda: np.float64,
        lambda: lambda: 1, lambda: [1.0, [2.0]], lambda: [[1.0, 2.0], [3.0]], lambda: nested(int(rng.choice([3, 31, 33, 64, 70]))),
        lambda: True, lambda: np.bool_(True), lambda: np.int64(2), lambda: np.float32(1.0), lambda: Ellipsis,
        lambda: np.empty((0,) * int(rng.integers(1, 30))), lambda: [value] * 2, lambda: (value, value), lambda: {"a": value},
        lambda: np.asarray(value, dtype=object) if _numeric(value) else [], lambda: np.float64("nan"), lambda: "1" * 5000,
        lambda: "\ud800", lambda: "a\0b", lambda: os.fsencode("/"), lambda: 10**18,
    ]
    return options[rng.integers(len(options))]()


def _numeric(value):
    try:
        np.asarray(value, dtype=float)
        return True
    except (TypeError, ValueError):
        return False


def nested(depth):
    """ deeply nested list """
    out = [1.0]
    for _ in range(depth):
        out = [out]
    return out


@REG.family(quick=6000, thorough=120000)
def objects(ctx, rng):
    """ unexpected objects """
    call = calls.build(rng, None, gen.shape(rng))
    args = dict(call.args)
    names = list(args)
    for name in rng.permutation(names)[:int(rng.integers(1, 3))]:
        value = args[name]
        if name == "coef_set" and rng.random() < 0.7:
            spec = list(value)
            spec[rng.integers(len(spec))] = odd(rng, value[0])
            args[name] = [tuple(spec), spec][rng.integers(2)]
        elif name == "coef_set_list" and rng.random() < 0.7:
            sets = [list(v) for v in value]
            item = sets[rng.integers(len(sets))]
            pos = int(rng.integers(len(item)))
            item[pos] = odd(rng, item[pos])
            args[name] = [tuple(v) if rng.random() < 0.8 else v for v in sets]
            if rng.random() < 0.2:
                args[name] = [tuple, Mutating, iter, np.array][rng.integers(3)](args[name])
        else:
            args[name] = odd(rng, value)
    if isinstance(args.get("degree"), int) and abs(args["degree"]) > 10000 and call.shape != (0,):
        args["degree"] = 2**70
    params, keywords = list(args.values()), {}
    how = int(rng.integers(0, 6))
    if how == 0:
        params = params[:int(rng.integers(0, len(params) + 1))]
    elif how == 1:
        params = params + [odd(rng, 1.0) for _ in range(int(rng.integers(1, 20)))]
    elif how == 2:
        cut = int(rng.integers(0, len(params)))
        keywords = dict(list(args.items())[cut:])
        params = params[:cut]
        if rng.random() < 0.5:
            keywords[str(rng.choice(["", "bogus", "x" * 300, "é", "degree", "latitude"]))] = odd(rng, 1.0)
    ctx.note(function=call.name, args=[repr(v)[:80] for v in params], keywords={k: repr(v)[:80] for k, v in keywords.items()})
    ctx.journal(function=call.name, args=[repr(v)[:80] for v in params], keywords={k: repr(v)[:80] for k, v in keywords.items()})
    attempt(ctx, call.name, call.func, *params, **keywords)
    ctx.count("function " + call.name)


# ---- quasi-dipole library ---------------------------------------------------

QD_TIMES = [-1e308, 1e308, np.nan, np.inf, -np.inf, 0.0, 1900.0, 1899.99, 2030.0, 2035.0, -145731.0, -145732.0, 36890.0, 36889.999,
            -36525.0, -36525.001, 1e9, -1e9, 2.0**31, 2.0**63, 7e5, -7e5, 2000.0, 5000.0, 366.0, -1.0, -0.0, 1e-300, 3.4e38, 3.5e38]


@REG.family(quick=3000, thorough=60000)
def quasi_dipole(ctx, rng):
    """ QD coordinates, MLT and sub-solar point of any values """
    shape = (int(rng.integers(0, 6)),) if rng.random() < 0.8 else ()

    def mixed(low, high):
        value = rng.uniform(low, high, shape)
        if rng.random() < 0.5:
            value = np.where(rng.random(shape) < 0.4, rng.choice(QD_TIMES, shape), value)
        if rng.random() < 0.3:
            value = hostile(rng, value, 0.4)
        return np.asarray(value)

    kind = int(rng.integers(0, 4))
    if kind == 0:
        func, args = _pyqd.eval_mlt, [mixed(-180, 180), mixed(-1e5, 1e5)]
    elif kind == 1:
        func, args = _pyqd.eval_subsol, [mixed(-2e5, 1e5)]
    else:
        files = c28.edata.__dict__
        paths = [str(v) for k, v in files.items() if k.startswith("APEX_")]
        func = _pyqd.eval_qdlatlon
        args = [mixed(-90, 90), mixed(-180, 180), mixed(6371, 7000), mixed(1990, 2030), paths[rng.integers(len(paths))],
                bool(rng.integers(2))]
        if rng.random() < 0.15:
            args[4] = str(rng.choice(["", "/", "/nonexistent", "x" * 2000, "x" * 1023, "x" * 1024, "x" * 1022, "/dev/null", "/tmp",
                                      " ", "a b", "/proc/self/mem"]))
    ctx.note(function=func.__name__, args=args)
    ctx.journal(function=func.__name__, args=args)
    attempt(ctx, func.__name__, func, *args)
    ctx.count("function " + func.__name__)


@REG.family(quick=1500, thorough=25000)
def qd_files(ctx, rng):
    """ QD coefficient files of any content """
    nmax = int(rng.integers(1, 7))
    mmax, lmax, num = int(rng.integers(0, nmax + 1)), int(rng.integers(0, 5)), int(rng.integers(1, 5))
    size = mmax * (2 * nmax - mmax + 1) + nmax + 1
    coef = rng.normal(0, 1, (6, num, lmax + 1, size))
    if rng.random() < 0.3:
        coef = hostile(rng, coef, 0.2)
    epochs = np.sort(rng.uniform(1980, 2030, num))
    if rng.random() < 0.2:
        epochs = rng.choice([2000.0, 2000.0, 2005.0, np.nan, 1e30, -1.0], num)
    item = ApexFile(epochs, nmax, max(mmax, 0), lmax, coef)
    path = os.path.join(ctx.work_dir, f"apex{rng.integers(0, 4)}.txt")
    item.write(path, rng)
    with open(path, encoding="ascii") as file:
        first, body = file.read().split("\n", 1)
    head, words = first.split(), body.split()
    for _ in range(int(rng.integers(0, 3))):
        how = int(rng.integers(0, 8))
        if how == 0 and head:
            head[int(rng.integers(len(head)))] = str(rng.choice(["0", "-1", "1", "2", "7", "50", "99", "100", "1000000", "2147483647",
                                                                 "-2147483648", "x", "1.5", "99999999999", "2*3", ",", "/", ""]))
        elif how == 1:
            words = words[:int(rng.integers(0, len(words) + 1))]
        elif how == 2 and words:
            words[int(rng.integers(len(words)))] = str(rng.choice(["nan", "inf", "x", "1e999", "5*1.0", "9999*0.0", "/", ",", "'", "\x00", "1d5"]))
        elif how == 3:
            words = words + ["1.0"] * int(rng.integers(1, 50))
        elif how == 4:
            head = head[:int(rng.integers(0, 6))]
        elif how == 5:
            head = [str(int(v) + int(rng.integers(-1, 2))) if v.lstrip("-").isdigit() else v for v in head]
        elif how == 6 and len(words) > 3:
            cut = int(rng.integers(0, len(words)))
            words[cut:cut] = ["\n"] * int(rng.integers(1, 4))
    with open(path, "w", encoding="ascii") as file:
        file.write(" ".join(head) + "\n" + " ".join(words) + "\n")
    if rng.random() < 0.1:
        with open(path, "wb") as file:
            file.write(bytes(rng.integers(0, 256, int(rng.integers(0, 3000)), dtype=np.uint8).tolist()))
    count = gen.tail(rng, 1, 5, 40)
    args = [rng.uniform(-90, 90, count), rng.uniform(-180, 180, count), rng.uniform(6371, 7000, count),
            rng.choice([1970.0, 1985.5, 2000.0, 2020.25, 2040.0], count)]
    if rng.random() < 0.2:
        args = [hostile(rng, a, 0.2) for a in args]
    ctx.note(head=head, args=args)
    ctx.journal(head=head, words=len(words), args=args)
    attempt(ctx, "eval_qdlatlon", _pyqd.eval_qdlatlon, *args, path, bool(rng.integers(2)))


# ---- public functions -------------------------------------------------------

@REG.family(quick=2500, thorough=50000)
def public(ctx, rng):
    """ Python functions with hostile values """
    name = list(c04.PYTHON)[rng.integers(len(c04.PYTHON))]
    func, args, _ = c04.PYTHON[name](rng, gen.shape(rng))
    given = []
    for value, _ in args.values():
        value = np.asarray(value, float)
        if rng.random() < 0.7:
            value = hostile(rng, value, float(rng.choice([0.2, 0.7])))
        if rng.random() < 0.1:
            value = array_of(rng, any_dims(rng, value.shape))
        given.append(gen.relayout(rng, value)[1] if value.size and value.ndim < 8 and rng.random() < 0.4 else value)
    ctx.note(function=name, args=given)
    ctx.journal(function=name, args=given)
    with np.errstate(all="ignore"):
        attempt(ctx, name, func, *given)
    ctx.count("function " + name)


@REG.family(quick=2000, thorough=40000)
def models(ctx, rng):
    """ models with hostile values """
    name, model, _ = c04.model_for(rng)
    time_shape, loc_shape, _ = gen.time_loc_shapes(rng)
    time = hostile(rng, rng.uniform(-4000, 7000, time_shape), 0.3)
    coords = hostile(rng, gen.sph(rng, loc_shape), float(rng.choice([0.0, 0.2, 0.8])))
    if rng.random() < 0.15:
        coords = array_of(rng, any_dims(rng, coords.shape))
    if rng.random() < 0.1:
        time = array_of(rng, any_dims(rng, time.shape))
    options = {}
    if rng.random() < 0.4:
        options["max_degree"] = int(rng.choice([-5, -1, 0, 1, 3, 1000, 2**31, -2**40]))
    if rng.random() < 0.4:
        options["min_degree"] = int(rng.choice([-5, -1, 0, 1, 3, 1000, 2**31]))
    if rng.random() < 0.3:
        options["scale"] = hostile(rng, np.ones(3), 0.5)
    if "mio" in name or "composed" in name:
        if rng.random() < 0.5:
            options["f107"] = hostile(rng, rng.uniform(60, 200, time_shape), 0.3)
        if rng.random() < 0.3:
            options["lat_sol"] = hostile(rng, rng.uniform(-20, 20, time_shape), 0.3)
            options["lon_sol"] = hostile(rng, rng.uniform(-20, 20, time_shape), 0.3)
    for side in ("in", "out"):
        if rng.random() < 0.5:
            options[side + "put_coordinate_system"] = int(rng.integers(0, 3))
    ctx.note(model=name, time=time, coords=coords, options=options)
    ctx.journal(model=name, time=time, coords=coords, options=options)
    with np.errstate(all="ignore"):
        attempt(ctx, "model " + name, model.eval, time, coords, **options)
    if rng.random() < 0.1:
        point = coords.reshape(-1, coords.shape[-1])[:1].ravel() if coords.ndim and coords.size else np.ones(3)
        with np.errstate(all="ignore"):
            attempt(ctx, "field line", trace_field_line, model, float(np.ravel(time)[0]) if time.size else 0.0, np.array(point),
                    trace_options={"max_steps": 20, "step": float(rng.choice([100.0, 1e-300, -50.0, np.nan, 1e300]))})
    ctx.count("model " + name.split()[0])


@REG.family(quick=1500, thorough=30000)
def times(ctx, rng):
    """ time conversions at the boundaries of the calendar and of the types """
    shape = gen.shape(rng)
    name = str(rng.choice(["decimal_year_to_mjd2000", "mjd2000_to_decimal_year", "mjd2000_to_year_fraction", "sunpos",
                           "sunpos_original"]))
    years = rng.choice([-1e19, -5e9, -2.2e9, -1e6, -4800, -4716, -4713, -4712, -1, 0, 1, 1582, 1900, 2000, 2100, 9999, 1e5, 5.8e6,
                        2.147e9, 2.2e9, 9.2e18, 1e300], shape)
    value = years + rng.choice([0.0, -1e-12, 1e-12, 0.5, 1 / 365, -1 / 366], shape)
    if not name.startswith("decimal"):
        value = (value - 2000) * rng.choice([365.25, 365.2425, 365.0, 366.0], shape) + rng.choice([0.0, 0.5, -0.5, 1.0, -1.0, 1e-9], shape)
    if rng.random() < 0.3:
        value = hostile(rng, value, 0.5)
    value = np.asarray(value)
    ctx.note(function=name, value=value)
    ctx.journal(function=name, value=value)
    if name.startswith("sunpos"):
        other = [np.asarray(hostile(rng, rng.uniform(-90, 90, shape), 0.2)) for _ in range(6 if name != "sunpos" else 4)]
        attempt(ctx, name, getattr(_pysunpos, name), value, *other)
    else:
        attempt(ctx, name, getattr(_pytimeconv, name), value)
    ctx.count("function " + name)


@REG.family(quick=400, thorough=6000)
def large(ctx, rng):
    """ long arrays, high degrees, many dimensions """
    kind = int(rng.integers(0, 6))
    if kind == 0:
        degree = int(rng.integers(50, 400))
        coef = rng.normal(0, 1, ((degree + 1) * (degree + 2) // 2, 2))
        args = [calls._pos(rng, (2,), 1), coef, 1, int(rng.integers(0, 3)), int(rng.integers(1, 4)), bool(rng.integers(2)), int(rng.integers(-1, degree + 2))]
        func = _pymm.sheval
    elif kind == 1:
        func, args = _pymm.legendre, [rng.uniform(-90, 90, 3), int(rng.integers(100, 900))]
    elif kind == 2:
        func, args = _pymm.fourier2d, [rng.uniform(0, 1, 3), rng.uniform(0, 24, 3), rng.normal(0, 1, (2, 1, 3, 2)),
                                       int(rng.choice([-2**20, 2**20 - 3, 5000, -5000])), int(rng.choice([-2**20, 2**20 - 5, 77, -77])), 1.0, 1.0]
    elif kind == 3:
        call = calls.build(rng, None, (int(rng.integers(300, 3000)),))
        if call.name in ("eval_qdlatlon",):
            call = calls.build(rng, "sunpos", (2000,))
        func, args = call.func, list(call.args.values())
    elif kind == 4:
        num = int(rng.integers(1, 17))
        terms = calls._terms(rng, 12)
        sets = [(np.sort(rng.uniform(0, 1, 3)), rng.normal(0, 1, (len(terms), 3)), terms, 2) for _ in range(num)]
        func, args = _pymm.shevaltemp, [0.5, calls._pos(rng, (3,), 1), sets]
    else:
        dims = (1,) * int(rng.integers(10, 33))
        call = calls.build(rng, None, ())
        args = dict(call.args)
        for name, tail in call.tails.items():
            value = np.asarray(args[name])
            args[name] = value.reshape((dims + value.shape)[-32:]) if len(dims) + value.ndim <= 64 else value
        func, args = call.func, list(args.values())
    ctx.note(kind=kind, function=func.__name__)
    ctx.journal(kind=kind, function=func.__name__, shapes=[np.shape(a) for a in args if isinstance(a, np.ndarray)])
    attempt(ctx, func.__name__, func, *args)
    ctx.count(f"large {func.__name__}")
