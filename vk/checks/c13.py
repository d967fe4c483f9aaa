"""C13 coefficient sets return the right coefficients for every time and degree"""
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.ref import cal, sh
from vk.checks import c10
from eoxmagmod import decimal_year_to_mjd2000
from eoxmagmod.time_util import mjd2000_to_decimal_year_simple, decimal_year_to_mjd2000_simple
from eoxmagmod.magnetic_model.coefficients import (
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
    SparseSHCoefficientsTimeDependentDecimalYear, CombinedSHCoefficients,
)

REG = Registry(
    rule="a case is one generated coefficient table turned to a coefficient set and queried for "
         "times and degree ranges, judged by looking the values up in the table in extended precision",
)
LD = np.longdouble


def terms(rng, top, low=None):
    """ random (n, m) list """
    low = int(rng.integers(0, top + 1)) if low is None else low
    pairs = [(n, m) for n in range(low, top + 1) for m in range(-n, n + 1)]
    keep = rng.choice([0.1, 0.5, 1.0])
    pick = [p for p in pairs if rng.random() < keep] or [pairs[rng.integers(len(pairs))]]
    if rng.random() < 0.5:
        pick = [pick[i] for i in rng.permutation(len(pick))]
    return np.array(pick)


def narrow(rng, nm):
    """ integer type of the indices """
    top = int(np.abs(nm).max())
    return str(rng.choice(["i8", "i4", "i4", "i2" if top < 2**15 else "i4", "i1" if top < 2**7 else "i2"]))


def linear_years(rng):
    """ user's conversions between MJD2000 and decimal years """
    length = float(rng.choice([365.25, 365.25, 365.2425, 366.0]))
    if length == 365.25 and rng.random() < 0.7:
        return length, decimal_year_to_mjd2000_simple, mjd2000_to_decimal_year_simple
    return length, lambda year: (year - 2000.0) * length, lambda time: 2000.0 + time / length


class Table:
    """ oracle: the plain table of a coefficient set """
    year_length = None  # decimal years: length of a year of the user defined conversion

    def to_year(self, time):
        """ decimal year in extended precision """
        if self.year_length is None:
            return cal.to_decimal_year(time)
        return 2000 + np.asarray(time, LD)[()] / LD(self.year_length)

    def to_mjd(self, year):
        """ inverse """
        if self.year_length is None:
            return cal.to_mjd(year)
        return (np.asarray(year, float)[()] - 2000.0) * self.year_length

    def __init__(self, rng, kind, top, internal, validity=None, low=None, long=0.12, custom=0, nm=None):
        self.kind = kind
        self.nm = terms(rng, top, low) if nm is None else nm
        self.internal = internal
        num = len(self.nm)
        self.order = 1 if kind == "constant" else int(rng.integers(1, 3))
        size = 1 if kind == "constant" else gen.tail(rng, self.order, 8, 120, long)
        values = rng.normal(size=(num, size)) * 10.0 ** rng.uniform(-2, 4)
        kwargs = {}
        if not internal or rng.random() < 0.3:
            kwargs["is_internal"] = internal
        if kind == "constant":
            self.times = np.array([-np.inf])
            self.validity = [-np.inf, np.inf]
        elif kind == "mjd":
            self.times = np.sort(rng.uniform(-4e4, 3e4)
                                 + np.cumsum(rng.choice([0.5, 1, 30, 365.25, 1826], size) * rng.uniform(0.5, 1)))
            self.validity = [self.times[0], self.times[-1]]
        else:
            if rng.random() < 0.6:
                self.times = np.sort(rng.choice(np.arange(1900, 2050), size, replace=False) + rng.choice([0, 0, 0.5, 0.25]))
            else:
                steps = rng.choice([0.0625, 0.1, 0.5, 1, 5], size) * rng.choice([1, 1, 0.5])
                self.times = rng.choice([1900.0, 1990.0, 1997.1, 2006.5, 2020.0]) + np.cumsum(steps)
            self.validity = [self.times[0], self.times[-1]]
        for i, key in enumerate(["validity_start", "validity_end"]):
            if rng.random() < 0.3:
                if kind == "decimal":
                    self.validity[i] = [float(rng.integers(1850, 2000)), float(rng.integers(2000, 2100))][i]
                else:
                    self.validity[i] = [float(rng.uniform(-4e4, 0)), float(rng.uniform(0, 4e4))][i]
                kwargs[key] = self.validity[i]
            if validity:
                kwargs[key] = self.validity[i] = validity[i]
        if kind == "decimal":
            if rng.random() < custom:
                self.year_length, kwargs["to_mjd2000"], kwargs["to_decimal_year"] = linear_years(rng)
            self.validity = [float(self.to_mjd(v)) if np.isfinite(v) else v for v in self.validity]
        self.values = values
        shuffle = rng.permutation(size)
        self.inputs = [self.nm.astype(narrow(rng, self.nm)), values[:, shuffle].copy(), self.times[shuffle].copy()]
        self.backup = [v.copy() for v in self.inputs]
        if kind == "constant":
            self.inputs[1] = self.inputs[1][:, 0].copy()
            self.backup[1] = self.inputs[1].copy()
            args = self.inputs[:2]
            cls = SparseSHCoefficientsConstant
        else:
            args = self.inputs
            if self.order != 2 or rng.random() < 0.5:
                kwargs["spline_order"] = self.order
            cls = SparseSHCoefficientsTimeDependent if kind == "mjd" else SparseSHCoefficientsTimeDependentDecimalYear
        if rng.random() < 0.2:
            args = [v.tolist() for v in args]
        self.coeff = cls(*args, **kwargs)

    def intact(self):
        """ inputs not modified """
        return all(np.array_equal(a, b) for a, b in zip(self.inputs, self.backup))

    def lookup(self, time, low, high):
        """ dense coefficients, their tolerance and the degree for the times """
        nmin, nmax = self.nm[:, 0].min(), self.nm[:, 0].max()
        low = nmin if low < 0 else low
        high = nmax if high < 0 else high
        pick = (self.nm[:, 0] >= low) & (self.nm[:, 0] <= high)
        nm, values = self.nm[pick], self.values[pick]
        degree = int(nm[:, 0].max()) if len(nm) else 0
        coef = np.zeros(time.shape + (sh.size(degree), 2), LD)
        tol = np.zeros(coef.shape)
        idx, part = sh.index(nm[:, 0], np.abs(nm[:, 1])), (nm[:, 1] < 0).astype(int)
        for pos in np.ndindex(*time.shape):
            if self.kind == "decimal":
                t = self.to_year(time[pos])
                unc = 2e-12  # conversion rounding
            else:
                t, unc = LD(time[pos]), 0.0
            if self.kind == "constant":
                got, err = values[:, 0].astype(LD), 0.0
            elif self.order == 1:
                node = self.times[np.argmin(np.abs(self.times - t))]
                if unc and abs(node - t) < unc and not (self.year_length is None and node * 16 % 1 == 0 and t == LD(node)):
                    raise SkipCase()  # on a step, up to the conversion rounding
                i = c10.search(self.times, t, left=False)
                got, err = values[:, max(i, 0)].astype(LD), 0.0
            else:
                i = c10.search(self.times, t, left=False)
                i = min(max(i, 0), self.times.size - 2)
                dt = LD(self.times[i + 1]) - LD(self.times[i])
                alpha = (t - LD(self.times[i])) / dt
                a, b = values[:, i].astype(LD), values[:, i + 1].astype(LD)
                got = a * (1 - alpha) + b * alpha
                # kinks at the nodes are covered by the slope of both segments
                err = 1e-15 * (1 + abs(alpha)) * (np.abs(a) + np.abs(b))
                if unc:
                    slope = np.max(np.abs(np.diff(values, axis=1)) / np.diff(self.times), axis=1)
                    err = err + unc * slope
            coef[pos + (idx, part)] = got
            tol[pos + (idx, part)] = err
        return coef, tol, degree


def query_times(rng, tables, shape):
    """ MJD2000 times on nodes, between, outside """
    num = int(np.prod(shape, dtype=int))
    nodes = [np.array([0.0, 5000.0])]
    for tab in tables:
        if tab.kind == "mjd":
            nodes.append(tab.times)
        elif tab.kind == "decimal":
            nodes.append(np.asarray(tab.to_mjd(tab.times), float))
    nodes = np.sort(np.concatenate(nodes))
    pick = nodes[rng.integers(0, nodes.size, num)]
    if rng.random() < 0.3:
        # the first or the last intervals
        nodes = nodes[:4] if rng.random() < 0.5 else nodes[-4:]
    mode = rng.integers(0, 6, num)
    out = np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3],
        [pick, rng.uniform(nodes[0] - 4000, nodes[0], num), rng.uniform(nodes[-1], nodes[-1] + 4000, num),
         pick + rng.normal(size=num)], default=rng.uniform(nodes[0], nodes[-1], num))
    return out.reshape(shape)


def degree_range(rng, tables):
    """ keyword arguments and the limits """
    top = max(int(t.nm[:, 0].max()) for t in tables)
    low = int(rng.integers(-1, top + 2)) if rng.random() < 0.5 else -1
    high = int(rng.integers(-1, top + 3)) if rng.random() < 0.5 else -1
    kwargs = {}
    if low != -1 or rng.random() < 0.3:
        kwargs["min_degree"] = low
    if high != -1 or rng.random() < 0.3:
        kwargs["max_degree"] = high
    return low, high, kwargs


def compare(ctx, got, tables, time, low, high, label=""):
    """ compare the returned coefficients """
    coef, degree = got
    parts = [t.lookup(time, low, high) for t in tables]
    top = max(p[2] for p in parts)
    want = np.zeros(time.shape + (sh.size(top), 2), LD)
    tol = np.zeros(want.shape)
    big = np.zeros(want.shape)
    for c, t, _ in parts:
        want[..., :c.shape[-2], :] += c
        tol[..., :c.shape[-2], :] += t
        big[..., :c.shape[-2], :] += np.abs(np.asarray(c, float))
    ctx.check(int(degree) == top, label + "degree of the returned coefficients", got=int(degree), want=top)
    ctx.close(label + "coefficients", coef, want, rtol=0, atol=tol + (1e-15 * len(parts)) * big * (len(parts) > 1))


@REG.family(quick=3000, thorough=40000)
def single_sets(ctx, rng):
    """ constant and time-dependent sets """
    kind = str(rng.choice(["constant", "mjd", "decimal"]))
    top = gen.tail(rng, 0, 12, 40)
    internal = bool(rng.integers(0, 2))
    tab = Table(rng, kind, top, internal, custom=0.25)
    ctx.note(kind=kind, nm=tab.nm, times=tab.times, order=tab.order)
    coeff = tab.coeff
    ctx.count(f"{kind} order {tab.order}")
    ctx.check(int(coeff.degree) == tab.nm[:, 0].max(), "degree", got=coeff.degree)
    ctx.check(int(coeff.min_degree) == tab.nm[:, 0].min(), "min. degree", got=coeff.min_degree)
    ctx.check(coeff.is_internal == internal, "source type")
    ctx.close("validity", np.array([float(v) for v in coeff.validity]), np.array(tab.validity, float), rtol=1e-15,
              atol=1e-9 if kind == "decimal" else 0)
    first = None
    for _ in range(3):
        time = query_times(rng, [tab], gen.shape(rng))
        low, high, kwargs = degree_range(rng, [tab])
        ctx.note(time=time, low=low, high=high)
        arg = gen.relayout(rng, time)[1] if time.size else time
        got = coeff(arg, **kwargs)
        compare(ctx, got, [tab], time, low, high)
        if first is None:
            first = (time, kwargs, got[0].copy())
            got[0][...] = -999.0   # the result belongs to the caller
        valid = np.asarray(coeff.is_valid(time))
        inside = (time >= coeff.validity[0]) & (time <= coeff.validity[1])
        ctx.equal("is_valid", valid, np.asarray(inside))
    ctx.equal("repeated query", coeff(first[0], **first[1])[0], first[2])
    ctx.check(tab.intact(), "the input arrays have been modified")


@REG.family(quick=1500, thorough=20000)
def combined_sets(ctx, rng):
    """ combinations of sets """
    num = gen.tail(rng, 1, 5, 12)
    internal = bool(rng.integers(0, 2))
    tables = [Table(rng, str(rng.choice(["constant", "mjd", "decimal"])), int(rng.integers(0, 9)), internal, custom=0.4)
              for _ in range(num)]
    parts = [t.coeff for t in tables]
    if num > 2 and rng.random() < 0.5:
        coeff = CombinedSHCoefficients(parts[0], CombinedSHCoefficients(*parts[1:]))
    else:
        coeff = CombinedSHCoefficients(*parts)
    ctx.note(kinds=[t.kind for t in tables])
    ctx.count(f"combined {num}")
    before = [(p.validity, p.degree, p.min_degree) for p in parts]
    ctx.check(int(coeff.degree) == max(int(p.degree) for p in parts), "degree")
    ctx.check(int(coeff.min_degree) == min(int(p.min_degree) for p in parts), "min. degree")
    ctx.check(coeff.is_internal == internal, "source type")
    ctx.equal("validity", np.array([float(v) for v in coeff.validity]),
              np.array([max(float(p.validity[0]) for p in parts), min(float(p.validity[1]) for p in parts)]))
    for _ in range(2):
        time = query_times(rng, tables, gen.shape(rng))
        low, high, kwargs = degree_range(rng, tables)
        ctx.note(time=time, low=low, high=high)
        alone = [p(time, **kwargs)[0].copy() for p in parts]
        got = coeff(time, **kwargs)
        compare(ctx, got, tables, time, low, high)
        for part, ref in zip(parts, alone):
            ctx.equal("parts not altered", part(time, **kwargs)[0], ref)
    ctx.check(before == [(p.validity, p.degree, p.min_degree) for p in parts], "parts altered by the combination")
    ctx.check(all(t.intact() for t in tables), "the input arrays have been modified")


@REG.family(quick=600, thorough=6000)
def node_values(ctx, rng):
    """ the tabulated values are returned exactly at the tabulated epochs """
    tab = Table(rng, str(rng.choice(["mjd", "decimal"])), int(rng.integers(1, 14)), True, custom=0.25)
    time = tab.times if tab.kind == "mjd" else np.asarray(tab.to_mjd(tab.times), float)
    ctx.note(kind=tab.kind, times=tab.times)
    coef, _ = tab.coeff(time)
    nm = tab.nm
    got = coef[:, sh.index(nm[:, 0], np.abs(nm[:, 1])), (nm[:, 1] < 0).astype(int)]
    slack = 0
    if tab.kind == "decimal" and tab.order == 1:
        return
    if tab.kind == "decimal":
        slack = 2e-12 * np.max(np.abs(np.diff(tab.values, axis=1)) / np.diff(tab.times), axis=1)
    ctx.close("node values", got, tab.values.T, rtol=1e-15, atol=slack)
    rest = coef.copy()
    rest[:, sh.index(nm[:, 0], np.abs(nm[:, 1])), (nm[:, 1] < 0).astype(int)] = 0
    ctx.check(not rest.any(), "terms which are not listed are not zero")


@REG.family(quick=400, thorough=4000)
def converted_times(ctx, rng):
    """ tables with times converted once when the set is created """
    nm = terms(rng, int(rng.integers(0, 6)))
    order = int(rng.integers(1, 3))
    size = gen.tail(rng, order, 6, 60)
    years = np.sort(rng.choice(np.arange(1900, 2050), size, replace=False)).astype(float)
    values = rng.normal(size=(len(nm), size))
    coeff = SparseSHCoefficientsTimeDependent(
        nm, values, years, spline_order=order, to_mjd2000=decimal_year_to_mjd2000)
    mjd = decimal_year_to_mjd2000(years)
    ctx.note(years=years, nm=nm, order=order)
    ctx.equal("validity", np.array([float(v) for v in coeff.validity]), np.array([mjd[0], mjd[-1]]))
    tab = Table.__new__(Table)
    tab.kind, tab.nm, tab.order, tab.times, tab.values = "mjd", nm, order, mjd, values
    time = query_times(rng, [tab], gen.shape(rng))
    low, high, kwargs = degree_range(rng, [tab])
    ctx.note(time=time, low=low, high=high)
    compare(ctx, coeff(time, **kwargs), [tab], time, low, high)


def few_terms(rng, top):
    """ a handful of terms, often of the highest degrees and orders """
    found = set()
    for _ in range(int(rng.integers(1, 12))):
        n = int(rng.choice([top, top - 1, rng.integers(0, top + 1), rng.choice([0, 1, 2, 13, 127, 128, 180, 181, 255, 256])]))
        n = min(n, top)
        m = int(rng.choice([n, -n, 0, 1, -1, rng.integers(-n, n + 1), rng.integers(-n, n + 1)]))
        found.add((n, m if abs(m) <= n else 0))
    found = sorted(found)
    return np.array([found[i] for i in rng.permutation(len(found))])


@REG.family(quick=60, thorough=1200)
def high_degrees(ctx, rng):
    """ sets with a few terms up to very high degrees, alone and combined """
    top = int(rng.choice([60, 127, 128, 181, 182, 255, 256, 257, 300, 362, 363, 400]))
    internal = bool(rng.integers(0, 2))
    kinds = rng.choice(["constant", "mjd", "decimal"], int(rng.integers(1, 4)))
    tables = [Table(rng, str(kind), top, internal, long=0, nm=few_terms(rng, top)) for kind in kinds]
    ctx.note(nm=[t.nm for t in tables], kinds=list(kinds))
    coeff = tables[0].coeff if len(tables) == 1 else CombinedSHCoefficients(*[t.coeff for t in tables])
    largest = max(int(t.nm[:, 0].max()) for t in tables)
    ctx.check(int(coeff.degree) == largest, "degree", got=coeff.degree, want=largest)
    for _ in range(2):
        time = query_times(rng, tables, ())
        low, high, kwargs = degree_range(rng, tables)
        if rng.random() < 0.5:
            low, high, kwargs = -1, -1, {}
        ctx.note(time=time, low=low, high=high)
        compare(ctx, coeff(time, **kwargs), tables, time, low, high, label="high degrees: ")
    ctx.count(f"top degree {top}")
    ctx.check(all(t.intact() for t in tables), "the input arrays have been modified")
