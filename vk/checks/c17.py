"""C17 text model files are loaded without losing or altering any coefficient"""
import io
import os
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import cal, sh
from vk.checks import c08
from vk.checks.c13 import Table, linear_years
from eoxmagmod import (
    data as edata, load_model_shc, load_model_shc_combined, load_model_igrf, load_model_wmm, load_model_emm,
    decimal_year_to_mjd2000,
)
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc, load_coeff_shc_composed, load_coeff_shc_combined
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm
from eoxmagmod.magnetic_model.parser_shc import parse_shc_header, parse_shc_file

REG = Registry(
    rule="a case is one generated or packaged model file whose loaded coefficients, degree bounds, validity "
         "and field are compared with the numbers written in (independently read from) the file",
)
LD = np.longdouble


class FileTable(Table):
    """ oracle of the content of a file """

    def __init__(self, nm, years, values, order, decimal=False, validity=None, internal=True, length=None):
        self.year_length = length
        self.nm = np.asarray(nm)
        self.values = np.asarray(values, float)
        self.years = np.asarray(years, float)
        self.internal = internal
        self.order = order
        if self.years.size == 1:
            self.kind, self.order = "constant", 1
            self.times = np.array([-np.inf])
            lim = (-np.inf, np.inf)
        else:
            self.kind = "decimal" if decimal else "mjd"
            self.times = self.years if decimal else np.asarray(self.to_mjd(self.years), float)
            lim = (self.years.min(), self.years.max())
        lim = lim if validity is None else validity
        self.validity = tuple(float(self.to_mjd(v)) if np.isfinite(v) else v for v in lim)
        sort = np.argsort(self.times)
        self.times, self.values = self.times[sort], self.values[:, sort]
        self.top, self.low = int(self.nm[:, 0].max()), int(self.nm[:, 0].min())

    def lookup(self, time, low, high):
        """ dense coefficients with the uncertainty of the epoch conversion """
        coef, tol, degree = super().lookup(time, low, high)
        if self.kind == "mjd" and self.order == 2:
            slope = np.max(np.abs(np.diff(self.values, axis=1)) / np.diff(self.times), axis=1)
            extra = sh.dense(self.nm, slope * 5e-11, self.top)
            tol = tol + extra[:coef.shape[-2]] + 0 * tol
        return coef, tol, degree


class SumTable:
    """ EMM: sum of tables with distinct terms """

    def __init__(self, *tables):
        self.tables = tables
        self.validity = (max(t.validity[0] for t in tables), min(t.validity[1] for t in tables))
        self.top, self.low = max(t.top for t in tables), min(t.low for t in tables)
        self.kind, self.order = "sum", 2
        self.times, self.years = tables[0].times, tables[0].years

    def lookup(self, time, low, high):
        """ dense coefficients """
        num = sh.size(self.top)
        coef, tol = np.zeros(time.shape + (num, 2), LD), np.zeros(time.shape + (num, 2))
        for tab in self.tables:
            c, t, _ = tab.lookup(time, low, high)
            coef[..., :c.shape[-2], :] += c
            tol[..., :c.shape[-2], :] += t
        return coef, tol, self.top


# ---- generation --------------------------------------------------------------

def number(rng, value):
    """ (text, value of the text) """
    kind = rng.integers(0, 6)
    text = [f"{value:.2f}", f"{value:.6f}", f"{value:.10e}", repr(float(value)), f"{value:.0f}", f"{value:+.3f}"][kind]
    return text, float(text)


def grid(rng, shape, zeros=0.05):
    """ table of (texts, values) """
    base = rng.normal(size=shape) * 10.0 ** rng.uniform(-2, 4)
    base = np.where(rng.random(shape) < zeros, 0.0, base)
    pairs = [number(rng, v) for v in base.ravel()]
    return np.array([p[0] for p in pairs], object).reshape(shape), np.array([p[1] for p in pairs], float).reshape(shape)


def epochs(rng, num):
    """ increasing decimal years """
    if num > 50:
        return float(rng.integers(1600, 1700)) + float(rng.choice([0.25, 0.125, 0.0625])) * 400 / max(num / 4, 400) * np.arange(num)
    kind = rng.integers(0, 4)
    if kind == 0:
        return rng.integers(1600, 2050) + 5.0 * np.arange(num)
    if kind == 1:
        return rng.integers(1900, 2050) + 0.5 * np.arange(num)
    if kind == 2:
        return np.sort(rng.choice(np.arange(1700, 2100), num, replace=False)) + 0.25
    return np.round(np.sort(rng.uniform(1900, 2050) + np.cumsum(rng.uniform(0.05, 2, num))), int(rng.integers(2, 7)))


def spacing(rng):
    """ separators """
    return str(rng.choice([" ", "   ", "\t", " \t "]))


def emit(rng, path, comments, head, rows):
    """ write lines with comments, blank lines and stray spaces """
    lines = []
    for _ in range(comments):
        lines.append(str(rng.choice(["# comment", "#", "  # 1 2 3", "#1 2 3 4 5", "# -- g h -- #", ""])))
    lines += head + rows
    if rng.random() < 0.2:
        for _ in range(3):
            lines.insert(int(rng.integers(comments, len(lines) + 1)), str(rng.choice(["", "   "])))
    end = str(rng.choice(["\n", "\r\n", " \n"]))
    text = end.join(lines) + (end if rng.random() < 0.8 else "")
    with open(path, "w", encoding="ascii", newline="") as file:
        file.write(text)
    return text


def term_pairs(rng, low, top):
    """ (n, m) in the usual or any order """
    pairs = []
    for n in range(low, top + 1):
        for m in range(n + 1):
            pairs += [(n, 0)] if m == 0 else [(n, m), (n, -m)]
    if rng.random() < 0.2:
        pairs = [p for p in pairs if rng.random() < 0.5] or pairs[-1:]
    if rng.random() < 0.2:
        pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    return pairs


def make_shc(rng, path, num=None, validity=None, low=None):
    """ SHC file -> (content dict) """
    low = int(rng.integers(0, 4)) if low is None else low
    top = low + int(rng.integers(0, 5))
    if num is not None and num > 50:
        top = low + int(rng.integers(0, 2))
    pairs = term_pairs(rng, low, top)
    low, top = min(p[0] for p in pairs), max(p[0] for p in pairs)
    num = int(rng.choice([1, 2, 3, 6, 11])) if num is None else num
    years = epochs(rng, num)
    texts, values = grid(rng, (len(pairs), num))
    order = int(rng.choice([1, 2, 2, 4, 6]))
    sep = spacing(rng)
    head = [low, top, num, order, int(rng.integers(0, 6))]
    if validity is None and rng.random() < 0.3:
        span = (float(years[0]), float(years[-1]))
        validity = [(float(np.floor(span[0])), float(np.ceil(span[1]) + 1)), span, (span[0] - 0.5, span[1] + 2.25)][rng.integers(0, 3)]
    if validity is not None:
        head += [repr(v) for v in validity]
    if num > 1 and rng.random() < 0.15:
        # columns which are not in the order of time
        order_ = rng.permutation(num)
        years, values = np.asarray(years)[order_], values[:, order_]
        texts = [[row[i] for i in order_] for row in texts]
    emit(rng, path, int(rng.integers(0, 4)),
         [sep.join(map(str, head)), str(rng.choice(["", "      "])) + sep.join(repr(float(y)) for y in years)],
         [sep.join([f"{n}", f"{m}", *row]) for (n, m), row in zip(pairs, texts)])
    return {"nm": pairs, "years": years, "values": values, "order": min(order, 2), "validity": validity, "head": head}


def whole(years):
    """ exactly convertible epochs """
    return bool(np.all(np.asarray(years) * 4 % 1 == 0))


# ---- judgement ---------------------------------------------------------------

def judge(ctx, rng, coeff, model, oracle, internal=True):
    """ compare coefficients and the field """
    got = tuple(float(v) for v in coeff.validity)
    ctx.close("validity", got, oracle.validity, rtol=0, atol=1e-10)
    ctx.check(int(coeff.degree) == oracle.top, "maximum degree", got=coeff.degree, want=oracle.top)
    length = getattr(oracle, "year_length", None)
    nodes = np.asarray(decimal_year_to_mjd2000(np.asarray(oracle.years, float)) if length is None
                       else oracle.to_mjd(oracle.years))
    pick = nodes[rng.integers(0, nodes.size, 3)]
    span = nodes.max() - nodes.min()
    inner = nodes.min() + rng.random(3) * (span if span else 1000.0)
    outer = [nodes.min() - 0.3 * span - 1, nodes.max() + 0.3 * span + 1, nodes.max() + 1e-6]
    exact = whole(oracle.years) and length in (None, 365.25)
    time = np.concatenate([pick, inner, outer])
    if getattr(oracle, "order", 2) == 1 and not exact:
        close = np.min(np.abs(time[:, None] - nodes), axis=1) < 1e-6
        time = np.where(close, time + 1e-3, time)
    low = high = -1
    if rng.random() < 0.3:
        low = int(rng.integers(-1, oracle.top + 1))
    if rng.random() < 0.3:
        high = int(rng.integers(-1, oracle.top + 2))
    value, degree = coeff(time, min_degree=low, max_degree=high)
    want, tol, _ = oracle.lookup(time, low, high)
    ctx.note(time=time, low=low, high=high, years=oracle.years)
    full = np.zeros(want.shape)
    num = min(full.shape[-2], value.shape[-2])
    full[..., :num, :] = value[..., :num, :]
    ctx.check(not np.any(value[..., num:, :]), "no other coefficients", degree=degree)
    ctx.close("coefficients", full, want, rtol=1e-15, atol=tol)
    # field, NaN outside of the validity
    coords = c08.points(rng, (time.size,), 1, low=6000)
    edge = np.min(np.abs(time[:, None] - np.array([oracle.validity])), axis=1) < 1e-9
    if not exact:
        time = np.where(edge, 0.5 * (max(oracle.validity[0], -1e5) + min(oracle.validity[1], 1e5)) + 0.01, time)
        want, tol, _ = oracle.lookup(time, low, high)
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    _, field, _, _ = sh.field(coords, want, 1, 1, None, internal)
    _, _, _, mag = sh.field(coords, np.abs(np.asarray(want, float)) + tol * 1e15, 1, 1, None, internal)
    top = int(round((np.sqrt(8 * want.shape[-2] + 1) - 3) / 2))
    atol = c08.tolerance(coords, 1, mag, top)[:, None]
    got = model.eval(time, coords, min_degree=low, max_degree=high)
    ctx.count("times_valid", int(inside.sum()))
    ctx.count("times_invalid", int((~inside).sum()))
    ctx.close("field", got, np.where(inside[:, None], -field, np.nan), rtol=0, atol=atol + 1e-300)


@REG.family(quick=1200, thorough=12000)
def shc(ctx, rng):
    """ single SHC file """
    path = os.path.join(ctx.work_dir, "model.shc")
    info = make_shc(rng, path, num=int(rng.choice([60, 700, 4500, 7000])) if rng.random() < 0.02 else None)
    decimal = bool(rng.random() < 0.3)
    kwargs = {}
    order, internal, validity = info["order"], True, info["validity"]
    if decimal:
        kwargs["interpolate_in_decimal_years"] = True
    if rng.random() < 0.15:
        internal = kwargs["is_internal"] = False
    if rng.random() < 0.15 and len(info["years"]) > 1:
        order = kwargs["spline_order"] = int(rng.integers(1, 3))
    if rng.random() < 0.1 and validity is None and len(info["years"]) > 1:
        validity = (1500.0, 2300.0)
        kwargs["validity_start"], kwargs["validity_end"] = validity
    length = None
    if rng.random() < 0.15:
        length, kwargs["to_mjd2000"], to_year = linear_years(rng)
        if decimal and len(info["years"]) > 1:
            kwargs["to_decimal_year"] = to_year
    oracle = FileTable(info["nm"], info["years"], info["values"], order, decimal, validity, internal, length)
    ctx.note(head=info["head"], kwargs=kwargs, nm=info["nm"], epochs=info["years"])
    ctx.count(f"epochs {len(info['years'])}")
    source = path
    kind = rng.integers(0, 4)
    if kind == 0:
        with open(path, encoding="ascii") as file:
            source = io.StringIO(file.read())
    coeff = load_coeff_shc(source, **kwargs)
    ctx.check(coeff.is_internal == internal, "source side")
    ctx.check(int(coeff.min_degree) == oracle.low, "minimum degree", got=coeff.min_degree)
    judge(ctx, rng, coeff, load_model_shc(path, **kwargs), oracle, internal)
    with open(path, encoding="ascii") as file:
        head = parse_shc_header(file)
    ctx.check([head[k] for k in ("degree_min", "degree_max", "ntime", "spline_order", "nstep")] == info["head"][:5], "header", got=head)
    ctx.equal("header epochs", head["t"], np.asarray(info["years"], float))
    with open(path, encoding="ascii") as file:
        data = parse_shc_file(file)
    ctx.equal("parsed values", data["gh"], info["values"])
    ctx.check(np.array_equal(data["nm"], info["nm"]), "parsed terms")


def sources_of(rng, paths, infos):
    """ (options, [(decimal, year length)], [path or coefficients]) """
    options, default = {}, (False, None)
    if rng.random() < 0.3:
        options["interpolate_in_decimal_years"] = True
        default = (True, None)
    length, sources = [], []
    for path, info in zip(paths, infos):
        item, source = default, path
        if rng.random() < 0.3:
            # loaded apart
            decimal, kwargs, years = bool(rng.integers(0, 2)), {}, None
            if rng.random() < 0.5:
                years, kwargs["to_mjd2000"], to_year = linear_years(rng)
                if decimal and len(info["years"]) > 1:
                    kwargs["to_decimal_year"] = to_year
            item = decimal, years
            source = load_coeff_shc(path, interpolate_in_decimal_years=decimal, **kwargs)
        length.append(item)
        sources.append(source)
    return options, length, sources


@REG.family(quick=500, thorough=5000)
def shc_sets(ctx, rng):
    """ composed and combined files """
    paths = [os.path.join(ctx.work_dir, f"model{i}.shc") for i in range(gen.tail(rng, 2, 5, 14))]
    ctx.count("files over 4", int(len(paths) > 4))
    if rng.random() < 0.5:
        infos = [make_shc(rng, p, validity=None if i else (1400.0, 2400.0)) for i, p in enumerate(paths)]
        options, length, sources = sources_of(rng, paths, infos)
        tabs = [FileTable(i["nm"], i["years"], i["values"], i["order"], o, i["validity"], length=l)
                for i, (o, l) in zip(infos, length)]
        coeff, model = load_coeff_shc_combined(*sources, **options), load_model_shc_combined(*sources, **options)
        time = rng.uniform(-5e4, 2e4, 6)
        for tab in tabs:
            if tab.kind != "constant":
                nodes = tab.to_mjd(tab.times) if tab.kind == "decimal" else tab.times
                close = np.min(np.abs(time[:, None] - nodes), axis=1) < 1e-6
                time = np.where(close, time + 0.01, time)
        total, err = np.zeros((6, sh.size(12), 2), LD), np.zeros((6, sh.size(12), 2))
        for tab in tabs:
            c, t, _ = tab.lookup(time, -1, -1)
            total[:, :c.shape[-2]] += c
            err[:, :c.shape[-2]] += t + 1e-15 * np.abs(np.asarray(c, float))
        start, end = max(t.validity[0] for t in tabs), min(t.validity[1] for t in tabs)
        ctx.count("combined")
    else:
        years = [1900.0, 1950.0, 1990.0, 2030.0] if len(paths) == 3 else np.linspace(1880, 1880 + 10.0 * len(paths), len(paths) + 1).tolist()
        infos = [make_shc(rng, p, validity=(years[i], years[i + 1])) for i, p in enumerate(paths)]
        tabs = [FileTable(i["nm"], i["years"], i["values"], i["order"], False, i["validity"]) for i in infos]
        perm = rng.permutation(len(paths))
        coeff = load_coeff_shc_composed(*[paths[i] for i in perm])
        model = load_model_shc(*[paths[i] for i in perm])
        tabs = [tabs[i] for i in perm]
        time = np.concatenate([rng.uniform(cal.to_mjd(1890), cal.to_mjd(2040), 4).astype(float),
                               np.asarray(cal.to_mjd(rng.choice(years, 2)), float)])
        for tab in tabs:
            if tab.kind != "constant":
                close = np.min(np.abs(time[:, None] - tab.times), axis=1) < 1e-6
                if not whole(tab.years):
                    time = np.where(close, time + 0.01, time)
        total, err = np.zeros((6, sh.size(12), 2), LD), np.zeros((6, sh.size(12), 2))
        for i, t in enumerate(time):
            tab = next((b for b in tabs if b.validity[0] <= t <= b.validity[1]), tabs[0])
            c, e, _ = tab.lookup(np.asarray(t), -1, -1)
            total[i, :c.shape[-2]], err[i, :c.shape[-2]] = c, e
        start, end = min(t.validity[0] for t in tabs), max(t.validity[1] for t in tabs)
        ctx.count("composed")
    ctx.note(time=time, heads=[i["head"] for i in infos])
    got, _ = coeff(time)
    full = np.zeros(total.shape)
    full[:, :got.shape[-2]] = got
    inside = (time >= start) & (time <= end)
    ctx.close("coefficients", full, total, rtol=1e-15, atol=err)
    ctx.close("validity", [float(v) for v in model.validity], [start, end], rtol=0, atol=1e-10)
    coords = c08.points(rng, (6,), 1, low=6000)
    _, field, _, _ = sh.field(coords, total, 1, 1, 12, True)
    _, _, _, mag = sh.field(coords, np.abs(np.asarray(total, float)) + 1e15 * err, 1, 1, 12, True)
    # cancelled terms
    mag = np.asarray(mag, float) * 2
    ctx.close("field", model.eval(time, coords), np.where(inside[:, None], -field, np.nan), rtol=0,
              atol=4 * c08.tolerance(coords, 1, mag, 12)[:, None] + 1e-10)


def reordered(rng, lines):
    """ sometimes not sorted by the degree and order """
    if rng.random() < 0.8:
        return lines
    return [lines[i] for i in rng.permutation(len(lines))]


@REG.family(quick=500, thorough=5000)
def igrf(ctx, rng):
    """ IGRF format """
    path = os.path.join(ctx.work_dir, "igrf.txt")
    top = gen.tail(rng, 1, 6, 40)
    pairs = []
    for n in range(1, top + 1):
        for m in range(n + 1):
            pairs += [(n, 0)] if m == 0 else [(n, m), (n, -m)]
    num = gen.tail(rng, 1, 8, 80)
    years = rng.integers(1900, 2020) + 5.0 * np.arange(num)
    texts, values = grid(rng, (len(pairs), num + 1))
    sep = spacing(rng)
    head = [sep.join(["", ""] + ["DGRF"] * num + ["SV"]),
            sep.join(["g/h", "n", "m"] + [repr(float(y)) for y in years] + [f"{int(years[-1])}-{int(years[-1] + 5) % 100}"])]
    emit(rng, path, int(rng.integers(0, 4)), head,
         reordered(rng, [sep.join(["h" if m < 0 else "g", str(n), str(abs(m)), *row]) for (n, m), row in zip(pairs, texts)]))
    table = values.copy()
    table[:, -1] = values[:, -2] + 5 * values[:, -1]
    oracle = FileTable(pairs, np.append(years, years[-1] + 5), table, 2, True)
    ctx.note(years=years, top=top)
    judge(ctx, rng, load_coeff_igrf(path), load_model_igrf(path), oracle)


@REG.family(quick=500, thorough=5000)
def wmm(ctx, rng):
    """ WMM format """
    path = os.path.join(ctx.work_dir, "wmm.cof")
    top = gen.tail(rng, 1, 7, 40)
    pairs = [(n, m) for n in range(1, top + 1) for m in range(n + 1)]
    texts, values = grid(rng, (len(pairs), 4), zeros=0.15)
    texts[-1, 0], values[-1, 0] = "12.5", 12.5
    epoch = float(rng.choice([2015.0, 2020.0, 2010.0, 1995.5]))
    sep = spacing(rng)
    lines = [sep.join([f"    {epoch}", "WMM-TEST", "09/18/2018"])]
    nm, table = [], []
    for (n, m), row, val in zip(pairs, texts, values):
        row = list(row)
        if m == 0:
            row[1] = row[3] = "0.0"
        lines.append(sep.join(["", str(n), str(m), *row]))
        nm.append((n, m)), table.append((val[0], val[0] + 5 * val[2]))
        if m:
            nm.append((n, -m)), table.append((val[1], val[1] + 5 * val[3]))
    lines[1:] = reordered(rng, lines[1:])
    if rng.random() < 0.8:
        lines += ["9" * 48] * int(rng.integers(1, 3))
    with open(path, "w", encoding="ascii") as file:
        file.write("\n".join(lines) + ("\n" if rng.random() < 0.8 else ""))
    oracle = FileTable(nm, [epoch, epoch + 5], table, 2, True)
    ctx.note(epoch=epoch, top=top)
    judge(ctx, rng, load_coeff_wmm(path), load_model_wmm(path), oracle)


@REG.family(quick=500, thorough=5000)
def emm(ctx, rng):
    """ EMM format: static and secular variation files """
    paths = [os.path.join(ctx.work_dir, f"emm{i}.cof") for i in range(2)]
    top_var = gen.tail(rng, 1, 4, 20)
    top = top_var + int(rng.integers(1, 4))
    epoch = float(rng.choice([2010.0, 2005.0, 2000.5]))
    sep = spacing(rng)
    stat, var = {}, {}
    for path, limit, content in zip(paths, (top, top_var), (stat, var)):
        lines = ["EMM coefficients", "Model: TEST 1", f"Epoch:{sep}{epoch}", str(rng.choice(["Units: nT", "n m g h"])), "-" * int(rng.integers(1, 60))]
        for n in range(1, limit + 1):
            for m in range(n + 1):
                texts, values = grid(rng, (2,))
                if (n, m) == (top, top):
                    texts[0], values[0] = "3.25", 3.25
                content[n, m] = values[0]
                if m:
                    content[n, -m] = values[1]
                lines.append(sep.join(["", str(n), str(m), texts[0], texts[1] if m else "0.0"]))
        with open(path, "w", encoding="ascii") as file:
            file.write("\n".join(lines) + "\n")
    nm1 = list(var)
    nm2 = [k for k in stat if k not in var]
    oracle = SumTable(
        FileTable(nm1, [epoch, epoch + 5], [(stat[k], stat[k] + 5 * var[k]) for k in nm1], 2, True),
        FileTable(nm2, [epoch], [[stat[k]] for k in nm2], 1))
    ctx.note(epoch=epoch, top=top, top_var=top_var)
    judge(ctx, rng, load_coeff_emm(*paths), load_model_emm(*paths), oracle)


# ---- packaged files ------------------------------------------------------------

SHC_FILES = sorted({v for k, v in vars(edata).items() if isinstance(v, str) and v.endswith(".shc") and os.path.exists(v)})


def read_shc(path):
    """ independent reading """
    with open(path, encoding="ascii") as file:
        lines = [v for v in (line.split("#")[0].split() if i < 200 else line.split() for i, line in enumerate(file)) if v]
    head, years, rows = lines[0], [float(v) for v in lines[1]], lines[2:]
    table = np.array(rows, dtype=float)
    return head, np.array(years), table[:, :2].astype(int), table[:, 2:]


def every_epoch(ctx, coeff, years, nm, values, limit):
    """ all of the tabulated coefficients """
    pick = np.unique(np.linspace(0, len(years) - 1, min(len(years), limit)).astype(int))
    time = np.asarray(decimal_year_to_mjd2000(years))[pick]
    got, degree = coeff(time)
    ctx.check(int(degree) == nm[:, 0].max(), "degree", got=degree)
    want = sh.dense(nm, values[:, pick].T, int(degree))
    scale = np.abs(values).max(axis=1)
    ctx.close("tabulated coefficients", got, want, rtol=1e-14, atol=1e-10 * sh.dense(nm, scale, int(degree)) / 365 + 1e-300)
    ctx.count("epochs_compared", len(pick))


@REG.family(quick=len(SHC_FILES), once=True)
def packaged_shc(ctx, rng, index):
    """ SHC files of the package """
    path = SHC_FILES[index]
    head, years, nm, values = read_shc(path)
    ctx.note(path=os.path.basename(path), head=head, terms=len(nm))
    ctx.check(len(years) == values.shape[1] == int(head[2]), "file consistent with its header")
    coeff = load_coeff_shc(path)
    every_epoch(ctx, coeff, years, nm, values, 400 if len(nm) < 5000 else 3)
    ctx.check(int(coeff.degree) == nm[:, 0].max() and int(coeff.min_degree) == nm[:, 0].min(), "degree bounds")
    valid = None if len(head) < 7 else (float(head[5]), float(head[6]))
    order = min(int(head[3]), 2)
    if len(nm) < 5000:
        for decimal in (False, True):
            oracle = FileTable(nm, years, values, order, decimal, valid)
            judge(ctx, rng, load_coeff_shc(path, interpolate_in_decimal_years=decimal),
                  load_model_shc(path, interpolate_in_decimal_years=decimal), oracle)


@REG.family(quick=3, once=True)
def packaged_other(ctx, rng, index):
    """ IGRF-11, WMM, EMM files of the package """
    if index == 0:
        with open(edata.IGRF11, encoding="ascii") as file:
            lines = [line.split() for line in file if line.strip() and not line.startswith("#")]
        years = np.array([float(v) for v in lines[1][3:-1]])
        nm = np.array([(int(r[1]), int(r[2]) * (-1 if r[0] == "h" else 1)) for r in lines[2:]])
        values = np.array([[float(v) for v in r[3:]] for r in lines[2:]])
        values[:, -1] = values[:, -2] + 5 * values[:, -1]
        years = np.append(years, years[-1] + 5)
        coeff, model = load_coeff_igrf(edata.IGRF11), load_model_igrf(edata.IGRF11)
    elif index == 1:
        with open(edata.WMM_2015, encoding="ascii") as file:
            lines = [line.split() for line in file if line.strip()]
        epoch = float(lines[0][0])
        years = np.array([epoch, epoch + 5])
        nm, values = [], []
        for row in lines[1:]:
            if len(row) < 6:
                break
            n, m = int(row[0]), int(row[1])
            g, h, dg, dh = (float(v) for v in row[2:6])
            nm.append((n, m)), values.append((g, g + 5 * dg))
            if m:
                nm.append((n, -m)), values.append((h, h + 5 * dh))
        nm, values = np.array(nm), np.array(values)
        coeff, model = load_coeff_wmm(edata.WMM_2015), load_model_wmm(edata.WMM_2015)
    else:
        if not os.path.exists(edata.EMM_2010_SECVAR):
            ctx.count("no EMM file")
            return
        # the static file is not distributed: a generated one extends the published secular variation
        with open(edata.EMM_2010_SECVAR, encoding="ascii") as file:
            text = file.read().splitlines()
        cut = next(i for i, v in enumerate(text) if v.strip() and not v.strip().strip("-"))
        rows = [v.split() for v in text[cut + 1:] if v.strip()]
        epoch = next(float(v.split()[1]) for v in text[:cut] if v.split()[:1] == ["Epoch:"])
        path = os.path.join(ctx.work_dir, "static.cof")
        top = max(int(r[0]) for r in rows) + 2
        stat = {}
        with open(path, "w", encoding="ascii") as file:
            file.write("\n".join(text[:cut + 1]) + "\n")
            for n in range(1, top + 1):
                for m in range(n + 1):
                    g, h = np.round(rng.normal(size=2) * 100, 3)
                    stat[n, m] = g
                    if m:
                        stat[n, -m] = h
                    file.write(f"{n} {m} {g!r} {h if m else 0.0!r}\n".replace("np.float64(", "").replace(")", ""))
        var = {}
        for r in rows:
            n, m = int(r[0]), int(r[1])
            var[n, m] = float(r[2])
            if m:
                var[n, -m] = float(r[3])
        const = [k for k in stat if k not in var]
        ctx.note(path=edata.EMM_2010_SECVAR, epoch=epoch, terms=len(stat))
        oracle = SumTable(
            FileTable(list(var), [epoch, epoch + 5], [(stat[k], stat[k] + 5 * var[k]) for k in var], 2, True),
            FileTable(const, [epoch], [[stat[k]] for k in const], 1))
        judge(ctx, rng, load_coeff_emm(path, edata.EMM_2010_SECVAR), load_model_emm(path, edata.EMM_2010_SECVAR), oracle)
        return
    ctx.note(years=years, terms=len(nm))
    every_epoch(ctx, coeff, years, nm, values, 100)
    oracle = FileTable(nm, years, values, 2, True)
    for _ in range(3):
        judge(ctx, rng, coeff, model, oracle)


# ---- malformed files -------------------------------------------------------------

@REG.family(quick=600, thorough=4000)
def malformed(ctx, rng):
    """ damaged files are rejected, the package works afterwards """
    path = os.path.join(ctx.work_dir, "model.shc")
    info = make_shc(rng, path, num=int(rng.integers(1, 5)))
    before = load_coeff_shc(path)(np.array([0.0]))[0]
    with open(path, encoding="ascii") as file:
        lines = [v for v in (line.split("#")[0].split() for line in file) if v]
    head, years, rows = lines[0], lines[1], lines[2:]
    kind = str(rng.choice(["short row", "long row", "text", "order", "negative degree", "no rows", "no times", "empty",
                           "short header", "header text", "epochs", "missing"]))
    pos = int(rng.integers(0, len(rows)))
    bad = os.path.join(ctx.work_dir, "bad.shc")
    if kind == "short row":
        if len(rows) == 1 and len(rows[0]) == 3:
            rows[pos] = rows[pos][:2]
        else:
            rows[pos] = rows[pos][:-1]
    elif kind == "long row":
        rows[pos] = rows[pos] + ["1.5"]
        if len(rows) == 1 and len(years) == 1:
            kind, rows[pos] = "text", rows[pos][:-2] + ["1.x"]
    elif kind == "text":
        rows[pos][int(rng.integers(0, len(rows[pos])))] = str(rng.choice(["abc", "1,5", "--3", "1.5.2"]))
    elif kind == "order":
        rows[pos][1] = str(int(rng.choice([-1, 1])) * (int(rows[pos][0]) + 1))
    elif kind == "negative degree":
        rows[pos][0] = "-1"
    elif kind == "no rows":
        rows = []
    elif kind == "no times":
        years, rows = [], []
    elif kind == "empty":
        head, years, rows = ["#"], [], []
    elif kind == "short header":
        head = head[:int(rng.integers(1, 5))]
    elif kind == "header text":
        head[int(rng.integers(0, len(head)))] = "x1"
    elif kind == "epochs":
        years = years + [repr(float(years[-1]) + 1)] if len(years) > 1 or rng.random() < 0.5 else ["y2000"]
    with open(bad, "w", encoding="ascii") as file:
        file.write("\n".join(" ".join(v) for v in [head, years, *rows]) + "\n")
    if kind == "missing":
        bad = os.path.join(ctx.work_dir, "nonexistent", "x.shc")
    ctx.note(kind=kind, head=head, years=years, row=rows[pos] if pos < len(rows) else None)
    ctx.count(f"malformed {kind}")
    ctx.raises(f"SHC file: {kind}", load_model_shc, bad)
    ctx.equal("unaffected", load_coeff_shc(path)(np.array([0.0]))[0], before)
