"""C19 magnetospheric CDF series"""
import os
import numpy as np
from spacepy import pycdf
from vk.core import Registry
from vk import gen

from vk.ref import dip, sh
from vk.checks import c08
from vk.checks.c13 import Table
from vk.checks.c17 import SumTable, term_pairs
from eoxmagmod.magnetic_model import loader_mma as lm

REG = Registry(
    rule="a case is one generated or example CDF product (or sequence of products) whose loaded "
         "coefficients, epochs, validity and field are compared with the written records",
)
LD = np.longdouble
T0 = 63113904000000.0
DAY = 86400000.0
POLE = (90 - 9.92, 287.78 - 360)
TEST_DIR = os.path.join(os.path.dirname(__import__("eoxmagmod").__file__), "magnetic_model", "tests", "data")


class Series(Table):
    """ oracle of one series of records """

    def __init__(self, nm, raw, values, internal):
        self.kind, self.order = "mjd", 2
        self.nm, self.internal = np.asarray(nm), internal
        sort = np.argsort(raw, kind="stable")
        self.times = np.asarray((np.asarray(raw, LD) - LD(T0)) / LD(DAY), float)[sort]
        self.values = np.asarray(values, float)[sort].T
        self.validity = (self.times[0], self.times[-1])
        self.years = self.times
        self.top, self.low = int(self.nm[:, 0].max()), int(self.nm[:, 0].min())

    def lookup(self, time, low, high):
        """ with the uncertainty of the rounded epochs """
        coef, tol, degree = super().lookup(time, low, high)
        steps = np.diff(self.times)
        good = steps > 0
        slope = np.max(np.abs(np.diff(self.values, axis=1))[:, good] / steps[good], axis=1)
        extra = sh.dense(self.nm, slope * 1e-11, self.top)
        return coef, tol + extra[:coef.shape[-2]], degree


def raw_epochs(rng, num, start=None):
    """ increasing CDF epochs (ms) """
    start = T0 + np.round(rng.uniform(-8000, 12000)) * DAY + rng.choice([0, 2700000.0, 1.0]) if start is None else start
    step = float(rng.choice([5400000.0, 21600000.0, 3600000.0, 86400000.0]))
    if rng.random() < 0.3:
        return start + np.cumsum(np.round(rng.uniform(0.2, 3, num) * step) * (np.arange(num) > 0))
    return start + step * np.arange(num)


def write_series(cdf, rng, t_name, nm_name, names, raw, nm, values):
    """ write variables """
    cdf.new(t_name, type=pycdf.const.CDF_EPOCH, recVary=True, dims=[len(raw)])
    cdf.raw_var(t_name)[0] = raw
    nm = np.asarray(nm)
    itype = [pycdf.const.CDF_INT2, pycdf.const.CDF_INT4, pycdf.const.CDF_INT1][rng.integers(0, 3)]
    if rng.random() < 0.5:
        cdf.new(nm_name, type=itype, recVary=True, dims=[len(nm), 2])
        cdf[nm_name][0] = nm
    else:
        cdf.new(nm_name, type=itype, recVary=True, dims=[2])
        cdf[nm_name][...] = nm
    for name, vals in zip(names, values):
        cdf.new(name, type=pycdf.const.CDF_DOUBLE, recVary=True, dims=list(vals.shape))
        cdf[name][0] = vals


class Product:
    """ content of one generated product """

    def __init__(self, rng, kind, like=None, start=None):
        self.kind = kind
        self.sets = {}
        for var in ("qs", "gh"):
            for sub in ("1", "2") if kind == "2c" else ("",):
                key = var, sub
                nm = like.sets[key][0] if like else term_pairs(rng, 1, gen.tail(rng, 1, 4, 12, 0.03))
                # series start at the beginning of the product
                first = None if start is None else start[key]
                if first is None and self.sets:
                    first = next(iter(self.sets.values()))[1][0] + float(rng.choice([0, 2700000.0, -1800000.0]))
                raw = raw_epochs(rng, gen.tail(rng, 2, 9, 3000, 0.03), first)
                frames = 1 if kind == "2c" else 2
                vals = [rng.normal(size=(len(raw), len(nm))) * 50 for _ in range(frames)]
                self.sets[key] = nm, raw, vals

    def write(self, path, rng, shuffle=False):
        """ save """
        if os.path.exists(path):
            os.remove(path)
        with pycdf.CDF(path, "") as cdf:
            for (var, sub), (nm, raw, vals) in self.sets.items():
                perm = rng.permutation(len(raw)) if shuffle else np.arange(len(raw))
                if self.kind == "2c":
                    write_series(cdf, rng, f"t_{var}_{sub}", f"nm_{var}_{sub}", [f"{var}_{sub}"], raw[perm], nm, [v[perm] for v in vals])
                else:
                    write_series(cdf, rng, f"t_{var}", f"nm_{var}", [f"{var}_geo", f"{var}_sm"], raw[perm], nm, [v[perm] for v in vals])


LOADERS = {
    ("2c", "gh", 0): (lm.load_coeff_swarm_mma_2c_internal, lm.load_model_swarm_mma_2c_internal),
    ("2c", "qs", 0): (lm.load_coeff_swarm_mma_2c_external, lm.load_model_swarm_mma_2c_external),
    ("2f", "gh", 0): (lm.load_coeff_swarm_mma_2f_geo_internal, lm.load_model_swarm_mma_2f_geo_internal),
    ("2f", "qs", 0): (lm.load_coeff_swarm_mma_2f_geo_external, lm.load_model_swarm_mma_2f_geo_external),
    ("2f", "gh", 1): (lm.load_coeff_swarm_mma_2f_sm_internal, lm.load_model_swarm_mma_2f_sm_internal),
    ("2f", "qs", 1): (lm.load_coeff_swarm_mma_2f_sm_external, lm.load_model_swarm_mma_2f_sm_external),
}


def table(products, var, frame):
    """ oracle of the joined products """
    subs = ("1", "2") if products[0].kind == "2c" else ("",)
    tabs = []
    for sub in subs:
        parts = [p.sets[var, sub] for p in products]
        tabs.append(Series(parts[0][0], np.concatenate([p[1] for p in parts]),
                           np.concatenate([p[2][frame] for p in parts]), var == "gh"))
    return tabs


def judge(ctx, rng, coeff, model, tabs, internal, pole):
    """ compare coefficients and field """
    oracle = SumTable(*tabs)
    ctx.check(coeff.is_internal == internal, "source side")
    ctx.close("validity", [float(v) for v in coeff.validity], oracle.validity, rtol=0, atol=3e-12)
    ctx.check(int(coeff.degree) == oracle.top and int(coeff.min_degree) == oracle.low, "degree bounds")
    nodes = np.concatenate([t.times for t in tabs])
    # (steep extrapolation amplifies the rounding of the epochs)
    lo, hi = oracle.validity if oracle.validity[0] < oracle.validity[1] else (nodes.min(), nodes.min())
    nodes = nodes[(nodes >= lo) & (nodes <= hi)]
    time = np.concatenate([rng.choice(nodes, 4), rng.uniform(lo, hi, 4), [lo - 1e-3, hi + 1e-3, oracle.validity[0] + 1e-9]])
    twice = np.concatenate([t.times[1:][np.diff(t.times) == 0] for t in tabs])
    if twice.size:
        # two records of the same epoch: either of them may be chosen
        close = np.min(np.abs(time[:, None] - twice), axis=1) < 1e-9
        time = np.where(close, time + 1e-3, time)
    ctx.note(time=time, validity=oracle.validity)
    got, _ = coeff(time)
    want, tol, _ = oracle.lookup(time, -1, -1)
    full = np.zeros(want.shape)
    full[..., :got.shape[-2], :] = got
    ctx.close("coefficients", full, want, rtol=1e-15, atol=tol + 1e-15 * np.abs(np.asarray(want, float)))
    coords = c08.points(rng, (time.size,), 1, low=6000)
    edge = np.min(np.abs(time[:, None] - np.array(oracle.validity)), axis=1) < 1e-10
    time = np.where(edge, 0.5 * sum(oracle.validity), time)
    low = int(rng.integers(-1, oracle.top)) if rng.random() < 0.3 else -1
    want, tol, _ = oracle.lookup(time, low, -1)
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    mags = np.abs(np.asarray(want, float)) + tol * 1e15
    if pole is None:
        _, field, _, _ = sh.field(coords, want, 1, 1, None, internal)
        _, _, _, mag = sh.field(coords, mags, 1, 1, None, internal)
    else:
        field, _ = dip.field(coords, want, pole, 1, 1, oracle.top, internal)
        _, mag = dip.field(coords, mags, pole, 1, 1, oracle.top, internal)
    base = 5 * c08.tolerance(coords, 1, mag, oracle.top)[:, None]
    if pole is not None:
        cart = dip.to_dipole(np.stack(_cart(coords), -1), dip.rotation(LD(pole[0]), LD(pole[1])))
        base = base + 1e-10 * np.asarray(mag, float)[:, None] * (np.hypot(cart[..., 0], cart[..., 1]) < 1e-6 * coords[:, 2])[:, None]
    ctx.count("times_valid", int(inside.sum()))
    got = model.eval(time, coords, min_degree=low)
    ctx.close("field", got, np.where(inside[:, None], -field, np.nan), rtol=0, atol=np.asarray(base, float) + 1e-300)
    one = model.eval(float(time[0]), coords[0], min_degree=low)
    ctx.close("single point", one, got[0], rtol=1e-13, atol=np.asarray(base, float)[0])


def _cart(coords):
    from vk.ref import geo
    return geo.sph2cart(coords[..., 0], coords[..., 1], coords[..., 2])


@REG.family(quick=700, thorough=7000)
def single(ctx, rng):
    """ one product """
    kind, var, frame = list(LOADERS)[rng.integers(0, 6)]
    product = Product(rng, kind)
    path = os.path.join(ctx.work_dir, "mma.cdf")
    product.write(path, rng, shuffle=bool(rng.random() < 0.15))
    load_coeff, load_model = LOADERS[kind, var, frame]
    kwargs, pole = {}, POLE if kind == "2c" else None
    if kind == "2c" and rng.random() < 0.5:
        pole = (float(rng.uniform(60, 90)), float(rng.uniform(-180, 180)))
        kwargs = {"lat_ngp": pole[0], "lon_ngp": pole[1]}
    ctx.note(kind=kind, var=var, frame=frame, pole=pole, nm=[v[0] for v in product.sets.values()])
    ctx.count(f"{kind} {var} {frame}")
    model = load_model(path, **kwargs)
    if product.kind == "2c":
        tabs = table([product], var, frame)
        if tabs[0].validity[1] < tabs[1].validity[0] or tabs[1].validity[1] < tabs[0].validity[0]:
            return
    judge(ctx, rng, load_coeff(path), model, table([product], var, frame), var == "gh", pole)


@REG.family(quick=500, thorough=5000)
def sequence(ctx, rng):
    """ consecutive products """
    kind, var, frame = list(LOADERS)[rng.integers(0, 6)]
    num = gen.tail(rng, 2, 5, 12)
    products, paths = [], []
    for i in range(num):
        if i == 0:
            product = Product(rng, kind)
        else:
            gap = float(rng.choice([0.0, 5400000.0, 86400000.0]))
            last = {k: v[1][-1] + gap for k, v in products[-1].sets.items()}
            product = Product(rng, kind, like=products[0], start=last)
        products.append(product)
        paths.append(os.path.join(ctx.work_dir, f"mma{i}.cdf"))
        product.write(paths[-1], rng)
    load_coeff, load_model = LOADERS[kind, var, frame]
    ctx.note(kind=kind, var=var, frame=frame, num=num)
    tabs = table(products, var, frame)
    ctx.count(f"products {num}")
    ctx.count("shared_epochs", int(sum((np.diff(t.times) == 0).sum() for t in tabs)))
    coeff = load_coeff(*paths)
    parts = list(coeff) if kind == "2c" else [coeff]
    for part, tab in zip(parts, tabs):
        (times, values, nm, _), = part.get_coefficient_sets()
        ctx.check(np.all(np.diff(times) >= 0), "increasing epochs")
        ctx.close("epochs", times, tab.times, rtol=0, atol=3e-12)
        ctx.check(np.array_equal(nm, tab.nm), "terms", got=nm, want=tab.nm)
        ctx.check(values.shape == tab.values.shape, "one value per record")
    start, end = max(t.validity[0] for t in tabs), min(t.validity[1] for t in tabs)
    if start < end:
        judge(ctx, rng, coeff, load_model(*paths), tabs, var == "gh", POLE if kind == "2c" else None)


@REG.family(quick=300, thorough=2000)
def mismatch(ctx, rng):
    """ incompatible, unordered or damaged products are rejected """
    kind, var, frame = list(LOADERS)[rng.integers(0, 6)]
    load_coeff, load_model = LOADERS[kind, var, frame]
    products = [Product(rng, kind)]
    num = int(rng.choice([2, 2, 3, 4]))
    for _ in range(num - 1):
        last = {k: v[1][-1] + 5400000.0 for k, v in products[-1].sets.items()}
        products.append(Product(rng, kind, like=products[0], start=last))
    # the products are fine up to the damaged one
    bad = int(rng.integers(1, num))
    first, second = products[bad - 1], products[bad]
    paths = [os.path.join(ctx.work_dir, f"mma{i}.cdf") for i in range(num)]
    problem = str(rng.choice(["order", "overlap", "terms", "missing variable", "time type", "not a CDF", "no file"]))
    subs = [k for k in first.sets if k[0] == var]
    key = subs[rng.integers(len(subs))]
    nm, raw, vals = second.sets[key]
    if problem == "overlap":
        second.sets[key] = nm, raw - (raw[0] - first.sets[key][1][-1]) - 1000.0, vals
    elif problem == "terms":
        nm = [tuple(v) for v in nm]
        if rng.random() < 0.5 and len(nm) > 1:
            nm = nm[1:] + nm[:1]
        else:
            nm[0] = (5, 0)
        second.sets[key] = nm, raw, vals
    for product, path in zip(products, paths):
        product.write(path, rng)
    damaged = paths[bad]
    if problem == "order":
        if rng.random() < 0.5:
            paths[bad - 1], paths[bad] = paths[bad], paths[bad - 1]
        else:
            paths = paths[::-1]
    elif problem == "missing variable":
        os.remove(damaged)
        with pycdf.CDF(damaged, "") as cdf:
            cdf.attrs["TITLE"] = "empty"
    elif problem == "time type":
        with pycdf.CDF(damaged) as cdf:
            cdf.readonly(False)
            name = f"t_{var}_{key[1]}" if kind == "2c" else f"t_{var}"
            del cdf[name]
            other = [pycdf.const.CDF_DOUBLE, pycdf.const.CDF_TIME_TT2000][rng.integers(0, 2)]
            cdf.new(name, type=other, recVary=True, dims=[len(raw)])
            cdf.raw_var(name)[0] = raw.astype("i8") if other == pycdf.const.CDF_TIME_TT2000 else raw
    elif problem == "not a CDF":
        with open(damaged, "wb") as file:
            file.write(rng.bytes(300))
    elif problem == "no file":
        os.remove(damaged)
    ctx.note(kind=kind, var=var, problem=problem, num=num, bad=bad)
    ctx.count(f"rejected {problem}")
    ctx.count(f"damaged product {bad + 1} of {num}")
    ctx.raises(problem, load_model, *paths)
    ctx.raises(problem, load_coeff, *paths)


EXAMPLES = [(f, k) for f, kind in [("TEST_MMA_SHA_2C.cdf", "2c"), ("TEST_CHAOS_MMA.cdf", "2c"), ("TEST_MMA_SHA_2F.cdf", "2f")]
            for k in LOADERS if k[0] == kind and os.path.exists(os.path.join(TEST_DIR, f))]


@REG.family(quick=len(EXAMPLES), once=True)
def examples(ctx, rng, index):
    """ example products of the repository """
    name, (kind, var, frame) = EXAMPLES[index]
    path = os.path.join(TEST_DIR, name)
    tabs = []
    with pycdf.CDF(path) as cdf:
        for sub in ("_1", "_2") if kind == "2c" else ("",):
            coef = f"{var}{sub}" if kind == "2c" else f"{var}_{('geo', 'sm')[frame]}"
            nm = np.asarray(cdf[f"nm_{var}{sub}"][...]).reshape(-1, 2)
            tabs.append(Series(nm, cdf.raw_var(f"t_{var}{sub}")[...].ravel(), cdf[coef][...][0], var == "gh"))
    load_coeff, load_model = LOADERS[kind, var, frame]
    coeff = load_coeff(path)
    parts = list(coeff) if kind == "2c" else [coeff]
    ctx.note(path=name, kind=kind, var=var)
    for part, tab in zip(parts, tabs):
        pick = np.arange(0, tab.times.size, max(1, tab.times.size // 200))
        got, degree = part(tab.times[pick])
        ctx.close("records", got, sh.dense(tab.nm, tab.values[:, pick].T, int(degree)), rtol=1e-9,
                  atol=1e-9 * np.abs(tab.values).max())
    for _ in range(4):
        judge(ctx, rng, coeff, load_model(path), tabs, var == "gh", POLE if kind == "2c" else None)



