"""C14 piecewise coefficient sets select exactly one segment for every time"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import cal, sh
from vk.checks import c08
from vk.checks.c13 import Table, degree_range
from eoxmagmod.magnetic_model.coefficients import (
    ComposedSHCoefficients, CombinedSHCoefficients, SparseSHCoefficientsConstant,
)
from eoxmagmod.magnetic_model.util import (
    aggregate_intersected_intervals, get_nonoverlapping_intervals,
)
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel

REG = Registry(
    rule="a case is one generated arrangement of time segments (touching, overlapping, nested, listed in "
         "any order) queried at its boundaries, their neighbours and in between, judged by a linear "
         "scan for the first listed valid segment",
)
LD = np.longdouble


def pad(coef, tol, degree, top):
    """ pad to higher degree """
    out = np.zeros(coef.shape[:-2] + (sh.size(top), 2), coef.dtype)
    out[..., :coef.shape[-2], :] = coef
    err = np.zeros(out.shape)
    err[..., :coef.shape[-2], :] = tol
    del degree
    return out, err


class ComposedOracle:
    """ first listed valid segment """

    def __init__(self, items):
        self.items = items
        self.validity = (min(i.validity[0] for i in items), max(i.validity[1] for i in items))
        self.top = max(i.top for i in items)
        self.low = min(i.low for i in items)

    def select(self, t):
        """ segment of the time """
        for item in self.items:
            if item.validity[0] <= t <= item.validity[1]:
                return item
        return self.items[0]

    def lookup(self, time, low, high):
        """ dense coefficients """
        coef = np.zeros(time.shape + (sh.size(self.top), 2), LD)
        tol = np.zeros(coef.shape)
        for pos in np.ndindex(*time.shape):
            got, err, _ = self.select(time[pos]).lookup(np.asarray(time[pos]), low, high)
            coef[pos][:got.shape[-2]] = got
            tol[pos][:got.shape[-2]] = err
        return coef, tol, self.top


class CombinedOracle:
    """ sum of the items """

    def __init__(self, items):
        self.items = items
        self.validity = (max(i.validity[0] for i in items), min(i.validity[1] for i in items))
        self.top = max(i.top for i in items)
        self.low = min(i.low for i in items)

    def lookup(self, time, low, high):
        """ dense coefficients """
        coef = np.zeros(time.shape + (sh.size(self.top), 2), LD)
        tol = np.zeros(coef.shape)
        for item in self.items:
            got, err, _ = item.lookup(time, low, high)
            coef[..., :got.shape[-2], :] += got
            tol[..., :got.shape[-2], :] += err + 1e-15 * np.abs(np.asarray(got, float))
        return coef, tol, self.top


def wrap(tab):
    """ single set as an oracle """
    tab.validity = tuple(float(v) for v in tab.coeff.validity)
    tab.top, tab.low = int(tab.nm[:, 0].max()), int(tab.nm[:, 0].min())
    return tab


def segment(rng, years, internal, top=5, exact=None):
    """ set valid for the years (start, end) """
    if exact is not None:
        # interval given by two MJD2000 values
        kind = str(rng.choice(["constant", "mjd"]))
        return wrap(Table(rng, kind, int(rng.integers(0, top + 1)), internal, validity=exact))
    kind = str(rng.choice(["constant", "mjd", "decimal"]))
    limits = tuple(float(y) if kind == "decimal" else float(cal.year_start(y)) for y in years)
    return wrap(Table(rng, kind, int(rng.integers(0, top + 1)), internal, validity=limits))


def arrangement(rng, internal):
    """ segments without gaps; [(start, end)] in years, any order """
    num = gen.tail(rng, 2, 7, 60)
    edges = np.sort(rng.choice(np.arange(1950, 2050), num + 1, replace=False))
    spans = []
    for start, end in zip(edges[:-1], edges[1:]):
        kind = rng.integers(0, 5)
        if kind == 0:
            start, end = start - int(rng.integers(0, 15)), end + int(rng.integers(0, 15))
        elif kind == 1:
            end = end + int(rng.integers(1, 40))
        spans.append((int(start), int(end)))
    if rng.random() < 0.2:
        spans.append(spans[rng.integers(len(spans))])
    if rng.random() < 0.2:
        edge = int(edges[rng.integers(len(edges))])
        spans.append((edge, edge))
    order = rng.integers(0, 3)
    if order == 1:
        spans = spans[::-1]
    elif order == 2:
        spans = [spans[i] for i in rng.permutation(len(spans))]
    if rng.random() < 0.3:
        # arbitrary boundaries
        offset, scale = float(rng.normal() * 1e4), float(10.0 ** rng.uniform(-3, 2))
        limit = lambda year: offset + scale * (year - 2000)
        last = max(end for _, end in spans) if rng.random() < 0.2 else np.inf
        first = min(start for start, _ in spans) if rng.random() < 0.2 else -np.inf
        return [segment(rng, s, internal, exact=(
            -np.inf if s[0] <= first else limit(s[0]), np.inf if s[1] >= last else limit(s[1])))
            for s in spans]
    return [segment(rng, s, internal) for s in spans]


def interval_times(rng, oracles, num):
    """ times inside of the first, the last and other intervals of the series """
    series = [np.asarray(o.to_mjd(o.times), float) if o.kind == "decimal" else np.asarray(o.times, float)
              for o in oracles if getattr(o, "kind", None) in ("mjd", "decimal")]
    series = [v for v in series if v.size > 1]
    if not series:
        return None
    nodes = series[rng.integers(0, len(series))]
    last = nodes.size - 2
    idx = np.minimum(rng.choice([0, 1, last, -1], num), last)
    idx = np.where(idx < 0, rng.integers(0, last + 1, num), idx)
    return nodes[idx] + rng.random(num) * (nodes[idx + 1] - nodes[idx])


def edge_times(rng, oracles, shape, outside=True):
    """ boundaries, their neighbours and times in between """
    num = int(np.prod(shape, dtype=int))
    edges = np.array(sorted({float(v) for o in oracles for v in o.validity if np.isfinite(v)}) or [0.0])
    pick = edges[rng.integers(0, edges.size, num)]
    mode = rng.integers(0, 8, num)
    lo, hi = edges[0], edges[-1]
    inner = interval_times(rng, oracles, num)
    if inner is None:
        inner, mode = pick, mode % 7
    if outside:
        lo, hi = lo - 500, hi + 500
    out = np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3, mode == 7],
        [pick, np.nextafter(pick, np.inf), np.nextafter(pick, -np.inf), pick + rng.normal(size=num), inner],
        default=rng.uniform(lo, hi, num))
    return out.reshape(shape)


def alone(rng, coeff):
    """ sometimes the only item of another set """
    while rng.random() < 0.15:
        coeff = (ComposedSHCoefficients, CombinedSHCoefficients)[rng.integers(2)](coeff)
    return coeff


def flatten(rng, items, cls):
    """ random nesting keeping the listing order """
    coeffs = [alone(rng, i.coeff) for i in items]
    if len(coeffs) > 2 and rng.random() < 0.4:
        try:
            cut = int(rng.integers(1, len(coeffs)))
            return alone(rng, cls(alone(rng, cls(*coeffs[:cut])), *coeffs[cut:]))
        except ValueError:
            pass
    return alone(rng, cls(*coeffs))


def near_node(oracles, time):
    """ step functions of converted times are ambiguous at the nodes """
    mask = np.zeros(time.shape, bool)
    for item in oracles:
        if getattr(item, "kind", None) == "decimal" and item.order == 1:
            dec = np.asarray(item.to_year(time), float)
            mask |= (np.abs(dec[..., None] - item.times) < 3e-12).any(-1)
    return mask


@REG.family(quick=2500, thorough=30000)
def selection(ctx, rng):
    """ coefficients of the first valid segment """
    internal = bool(rng.integers(0, 2))
    items = arrangement(rng, internal)
    oracle = ComposedOracle(items)
    coeff = flatten(rng, items, ComposedSHCoefficients) if rng.random() < 0.3 else \
        ComposedSHCoefficients(*[i.coeff for i in items])
    ctx.note(spans=[i.validity for i in items], kinds=[i.kind for i in items])
    ctx.equal("validity", np.array([float(v) for v in coeff.validity]), np.array(oracle.validity))
    ctx.check(int(coeff.degree) == oracle.top and int(coeff.min_degree) == oracle.low, "degree bounds",
              got=[coeff.degree, coeff.min_degree])
    ctx.check(coeff.is_internal == internal, "source type")
    time = edge_times(rng, items, gen.shape(rng))
    amb = near_node(items, time)
    time = np.where(amb, time + 0.123, time)
    low, high, kwargs = degree_range(rng, items)
    ctx.note(time=time, low=low, high=high)
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    ctx.equal("is_valid", np.asarray(coeff.is_valid(time)), np.asarray(inside))
    got, degree = coeff(gen.relayout(rng, time)[1] if time.size else time, **kwargs)
    got, degree = np.asarray(got), int(degree)
    ctx.check(got.shape == time.shape + (sh.size(degree), 2), "coefficients shape", got=got.shape, degree=degree)
    want, tol, top = oracle.lookup(time, low, high)
    full = np.zeros(want.shape)
    ctx.check(degree <= top, "degree", got=degree)
    full[..., :got.shape[-2], :] = got
    # what is evaluated outside of the validity interval is not specified
    ctx.close("coefficients", full[inside], want[inside], rtol=0, atol=tol[inside])
    ctx.count("times_in_overlap", int(sum(
        sum(i.validity[0] <= t <= i.validity[1] for i in items) > 1 for t in time.ravel())))
    rows = full.reshape((-1,) + full.shape[time.ndim:])
    for t, ok, row in list(zip(time.ravel(), inside.ravel(), rows))[:6]:
        if not ok:
            # unspecified, yet single times and arrays are served alike
            one, _ = coeff(float(t), **kwargs)
            one_ = np.zeros(row.shape)
            one_[:np.asarray(one).shape[-2]] = one
            ctx.count("outside_times")
            ctx.close("single time out of the validity", one_, row, rtol=1e-9, atol=1e-9)
        else:
            one, deg = coeff(float(t), **kwargs)
            ref, err, _ = oracle.select(t).lookup(np.asarray(t), low, high)
            ref, err = pad(ref, err, None, max(int(deg), int(round((np.sqrt(8 * ref.shape[-2] + 1) - 3) / 2))))
            one_ = np.zeros(ref.shape)
            one_[:one.shape[-2]] = one
            ctx.close("single time", one_, ref, rtol=0, atol=err)


@REG.family(quick=1500, thorough=15000)
def decomposition(ctx, rng):
    """ composed and combined sets decomposed to single segments """
    internal = bool(rng.integers(0, 2))
    parts = []
    leaves = []
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.6:
            items = arrangement(rng, internal)
            leaves += items
            parts.append((ComposedOracle(items), ComposedSHCoefficients(*[i.coeff for i in items])))
        else:
            tab = segment(rng, (int(rng.integers(1940, 1980)), int(rng.integers(2000, 2040))), internal)
            leaves.append(tab)
            parts.append((tab, tab.coeff))
    if len(parts) > 1:
        oracle = CombinedOracle([p[0] for p in parts])
        coeff = CombinedSHCoefficients(*[p[1] for p in parts])
    else:
        oracle, coeff = parts[0]
    if oracle.validity[0] > oracle.validity[1]:
        ctx.count("empty_intersection")
        return
    time = edge_times(rng, leaves, (40,))
    time = np.where(near_node(leaves, time), time + 0.123, time)
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    ctx.note(time=time, validity=oracle.validity)
    pieces = coeff.decompose()
    ctx.count("pieces", len(pieces))
    want, tol, top = oracle.lookup(time, -1, -1)
    for i in range(time.size):
        match = [item for (start, end), item in pieces if start <= time[i] <= end]
        if not inside[i]:
            ctx.check(not match, "instant outside of the validity found in the decomposition", time=time[i])
            continue
        ctx.check(match, "instant lost by the decomposition", time=time[i])
        got, deg = match[0](float(time[i]))
        full = np.zeros(want[i].shape)
        ctx.check(int(deg) <= top, "degree")
        full[:got.shape[-2]] = got
        ctx.close("piece", full, want[i], rtol=0, atol=tol[i])
    got, _ = coeff(time[inside])
    full = np.zeros(want[inside].shape)
    full[:, :got.shape[-2]] = got
    ctx.close("whole", full, want[inside], rtol=0, atol=tol[inside])


@REG.family(quick=1200, thorough=12000)
def evaluation(ctx, rng):
    """ the model evaluation selects the same segment """
    internal = bool(rng.integers(0, 2))
    items = arrangement(rng, internal)
    oracle = ComposedOracle(items)
    coeff = ComposedSHCoefficients(*[i.coeff for i in items])
    leaves = list(items)
    if rng.random() < 0.4:
        tab = segment(rng, (int(rng.integers(1940, 1980)), int(rng.integers(2000, 2040))), internal)
        leaves.append(tab)
        pair = [(oracle, coeff), (tab, tab.coeff)]
        if rng.random() < 0.5:
            pair = pair[::-1]
        oracle = CombinedOracle([p[0] for p in pair])
        coeff = CombinedSHCoefficients(*[p[1] for p in pair])
    model = SphericalHarmomicGeomagneticModel(coeff)
    size = gen.tail(rng, 1, 12, 80)
    time = edge_times(rng, leaves, (size,))
    time = np.where(near_node(leaves, time), time + 0.123, time)
    coords = c08.points(rng, (size,), 1)
    ctx.note(time=time, coords=coords, spans=[i.validity for i in leaves])
    want, tol, top = oracle.lookup(time, -1, -1)
    _, field, _, _ = sh.field(coords, want, 1, 1, top, internal)
    _, _, _, mag = sh.field(coords, np.abs(np.asarray(want, float)) + tol * 1e15, 1, 1, top, internal)
    atol = c08.tolerance(coords, 1, mag, top)[:, None] + 1e-300
    inside = (time >= oracle.validity[0]) & (time <= oracle.validity[1])
    field = np.where(inside[:, None], -field, np.nan)
    ctx.close("array of times", model.eval(time, coords), field, rtol=0, atol=atol)
    ctx.close("validity", np.array([float(v) for v in model.validity]), np.array(oracle.validity), rtol=0)
    for i in range(min(size, 4)):
        ctx.close("single time", model.eval(float(time[i]), coords[i]), field[i], rtol=0, atol=atol[i])
    ctx.count("valid", int(inside.sum()))
    ctx.count("invalid", int((~inside).sum()))


@REG.family(quick=1500, thorough=15000)
def gaps(ctx, rng):
    """ gaps and mixed sources are rejected, touching segments accepted """
    num = gen.tail(rng, 2, 6, 40)
    edges = np.sort(rng.uniform(-3e4, 3e4, num + 1))
    spans = [[a, b] for a, b in zip(edges[:-1], edges[1:])]
    gap = int(rng.integers(0, num - 1))
    width = rng.choice([0.0, 1e-9, 1.0, -1.0, -1e-9, 200.0])
    spans[gap + 1][0] = spans[gap][1] + width
    if width and spans[gap + 1][0] == spans[gap][1]:
        return
    if rng.random() < 0.1 and width == 0:
        spans[gap + 1][0] = np.nextafter(spans[gap][1], np.inf)
        width = 1
    if spans[gap + 1][0] > spans[gap + 1][1]:
        return
    if rng.random() < 0.2:
        spans.insert(int(rng.integers(0, num)), [edges[gap] - 1, edges[gap] + (edges[gap + 1] - edges[gap]) * 0.3])
    bridged = rng.random() < 0.2
    if bridged:
        spans.append([edges[0] - 5, edges[-1] + 5])
    nm = np.array([[1, 0]])
    sets = [SparseSHCoefficientsConstant(nm, np.array([1.0 + i]), validity_start=s, validity_end=e)
            for i, (s, e) in enumerate(spans)]
    sets = [sets[i] for i in rng.permutation(len(sets))]
    ctx.note(spans=spans, width=width, bridged=bridged)
    ctx.key(np.array(spans))
    if width > 0 and not bridged:
        ctx.raises("gap", ComposedSHCoefficients, *sets, exceptions=(ValueError,))
        ctx.count("gaps")
    else:
        coeff = ComposedSHCoefficients(*sets)
        ctx.equal("validity", np.array([float(v) for v in coeff.validity]),
                  np.array([min(s[0] for s in spans), max(s[1] for s in spans)], float))
    odd = SparseSHCoefficientsConstant(nm, np.array([1.0]), is_internal=False)
    ctx.raises("mixed sources", ComposedSHCoefficients, sets[0], odd, exceptions=(ValueError,))
    ctx.raises("mixed sources", CombinedSHCoefficients, odd, sets[0], exceptions=(ValueError,))
    ctx.raises("nothing composed", ComposedSHCoefficients, exceptions=(ValueError,))
    ctx.raises("nothing combined", CombinedSHCoefficients, exceptions=(ValueError,))


def _spans(rng, num):
    """ random intervals on a coarse grid: touching, nested, equal, invalid """
    grid = np.sort(rng.normal(size=int(rng.integers(2, 12))) * 1e3)
    if rng.random() < 0.2:
        grid[0], grid[-1] = -np.inf, np.inf
    pairs = rng.integers(0, grid.size, (num, 2))
    if rng.random() < 0.7:
        pairs = np.sort(pairs, axis=1)
    return [((float(grid[a]), float(grid[b])), i) for i, (a, b) in enumerate(pairs)], grid


def _probes(rng, grid):
    """ times off the boundaries """
    fine = grid[np.isfinite(grid)]
    fine = fine if fine.size else np.zeros(1)
    edges = np.concatenate([[fine[0] - 10], fine, [fine[-1] + 10]])
    return [float(v) for v in (edges[1:] * 0.5 + edges[:-1] * 0.5) if v not in grid]


@REG.family(quick=1500, thorough=15000)
def interval_helpers(ctx, rng):
    """ the first listed interval owns each instant, intersections join the owners """
    items, grid = _spans(rng, gen.tail(rng, 0, 8, 60))
    probes = _probes(rng, grid)
    backup = list(items)
    ctx.note(items=items, probes=probes)
    got = get_nonoverlapping_intervals(items)
    ctx.check(items == backup, "argument modified")
    for (start, end), _ in got:
        ctx.check(start < end, "empty interval", got=got)
    for (left, _), (right, _) in zip(got[:-1], got[1:]):
        ctx.check(left[1] <= right[0], "overlapping or unsorted intervals", got=got)
    for time in probes:
        want = [obj for (start, end), obj in items if start < time < end][:1]
        ctx.check([obj for (start, end), obj in got if start < time < end] == want,
                  "owner of an instant", time=time, got=got, want=want)
    other_items, other_grid = _spans(rng, gen.tail(rng, 0, 8, 60))
    other = get_nonoverlapping_intervals(other_items)
    first = aggregate_intersected_intervals(got)
    both = aggregate_intersected_intervals(other, first)
    ctx.note(other=other_items)
    probes = _probes(rng, np.unique(np.concatenate([grid, other_grid])))
    for time in probes:
        cover = [[obj for (start, end), obj in part if start < time < end] for part in (got, other)]
        ctx.check([obj for (start, end), obj in first if start < time < end] == [cover[0]][:len(cover[0])],
                  "aggregated with an unlimited interval", time=time, got=first)
        want = [cover[0] + cover[1]] if cover[0] and cover[1] else []
        ctx.check([obj for (start, end), obj in both if start < time < end] == want,
                  "aggregated intersection", time=time, got=both, want=want)
    ctx.key(str(items), str(other_items))
    ctx.count("intervals", len(got) + len(both))
