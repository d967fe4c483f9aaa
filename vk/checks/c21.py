"""C21 time conversions"""
from datetime import date, datetime, timedelta
from fractions import Fraction
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import cal
from eoxmagmod import (
    mjd2000_to_decimal_year, mjd2000_to_year_fraction, decimal_year_to_mjd2000,
)
from eoxmagmod.time_util import (
    mjd2000_to_decimal_year_simple, mjd2000_to_year_fraction_simple, decimal_year_to_mjd2000_simple,
    datetime_to_decimal_year,
)

REG = Registry(
    rule="a case is one batch of instants converted between MJD2000 and (fractions of) years and compared "
         "with calendar arithmetic in extended precision",
)
LD = np.longdouble
EPS = 2.3e-16


def years(rng, num, far=True):
    """ calendar years """
    mode = rng.integers(0, 6, num)
    return np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3],
        [rng.integers(1900, 2101, num), rng.choice([1582, 1583, 1584, 1600, 1700, 1800, 1900, 2000, 2100, 2400, 4, 0, -4, 1, -1, 8, 1500, 1400], num),
         rng.integers(-6000, 10000, num), rng.choice([2000, 1999, 2001, 2004], num)],
        default=np.round(10 ** rng.uniform(3, 6 if far else 4, num) * rng.choice([-1, 1], num)).astype(int))


def instants(rng, shape, far=True):
    """ MJD2000 close to and away from year ends, midnights """
    num = int(np.prod(shape, dtype=int))
    year = years(rng, num, far)
    start = cal.year_start(year).astype(float)
    length = cal.year_length(year)
    mode = rng.integers(0, 7, num)
    sign = rng.choice([-1, 1], num)
    out = np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3, mode == 4],
        [start, start + sign * 10.0 ** rng.uniform(-9, 0, num), start + np.floor(rng.random(num) * length),
         np.nextafter(start, sign * np.inf), start + np.round(rng.random(num) * length * 24) / 24],
        default=start + rng.random(num) * length)
    return out.reshape(shape)


def ulp(val):
    """ spacing """
    return np.spacing(np.abs(np.asarray(val, float)))


@REG.family(quick=3000, thorough=40000)
def to_years(ctx, rng):
    """ MJD2000 to decimal year and year fraction """
    shape = gen.shape(rng)
    time = np.asarray(instants(rng, shape))
    if rng.random() < 0.1:
        time = np.floor(time)
    ctx.note(time=time)
    arg = gen.relayout(rng, time)[1] if time.size else time
    if time.size and rng.random() < 0.1 and np.all(np.abs(time) < 2e9) and np.all(time == np.floor(time)):
        arg = time.astype("i4")
    dec = np.asarray(mjd2000_to_decimal_year(arg))
    frac = np.asarray(mjd2000_to_year_fraction(arg))
    year, part = cal.to_year(time)
    # the difference of the time and of the year start may be rounded
    ctx.close("decimal year", dec, cal.to_decimal_year(time), rtol=0, atol=1.01 * ulp(dec) + ulp(time) / 365)
    ctx.close("year fraction", frac, part, rtol=4e-16, atol=ulp(time) / 365 * 1.01 + 1e-300)
    ctx.check(np.all((frac >= 0) & (frac <= 1)), "fraction within the year", got=frac)
    ctx.close("fraction of the decimal year", np.where(np.abs(dec - year - part) < 0.5, dec - year, 0), part, rtol=0,
              atol=1.01 * ulp(dec) + ulp(time) / 365)
    ctx.count("before 1583", int((year < 1583).sum()))
    ctx.count("before the Christian era", int((year < 1).sum()))
    ctx.key(time)


@REG.family(quick=3000, thorough=40000)
def to_mjd(ctx, rng):
    """ decimal year to MJD2000 and back """
    shape = gen.shape(rng)
    num = int(np.prod(shape, dtype=int))
    year = years(rng, num).astype(float).reshape(shape)
    mode = rng.integers(0, 5, shape)
    dec = np.select([mode == 0, mode == 1, mode == 2], [year, year + 0.5, np.nextafter(year, rng.choice([-1, 1], shape) * np.inf)],
                    default=year + rng.random(shape))
    ctx.note(decimal_year=dec)
    got = np.asarray(decimal_year_to_mjd2000(gen.relayout(rng, dec)[1] if dec.size else dec))
    want = cal.to_mjd(dec)
    ctx.close("MJD2000", got, want, rtol=0, atol=1.01 * ulp(got) + 366 * 3e-16)
    # the days missing in 1582 have no inverse
    keep = ~((dec > 1582.97) & (dec < 1583.03))
    back = np.asarray(mjd2000_to_decimal_year(got))
    ctx.close("and back", np.where(keep, back, dec), dec, rtol=0, atol=2 * ulp(dec) + 2 * ulp(got) / 365)
    time = np.asarray(instants(rng, shape))
    again = np.asarray(decimal_year_to_mjd2000(mjd2000_to_decimal_year(time)))
    yr = cal.year_of(time)
    ctx.close("there and back", np.where(yr == 1582, time, again), time, rtol=0,
              atol=366 * (1.5 * ulp(np.asarray(cal.to_decimal_year(time), float)) + 3e-16) + 2 * ulp(time))
    ctx.key(dec)


@REG.family(quick=1500, thorough=15000)
def monotonic(ctx, rng):
    """ increasing and continuous, also across year ends """
    year = int(years(rng, 1)[0])
    start = float(cal.year_start(year))
    kind = rng.integers(0, 4)
    if kind == 0:
        steps = np.arange(-50, 51) * 10.0 ** rng.uniform(-7, -1)
    elif kind == 1:
        steps = np.sort(rng.uniform(-400, 400, 100))
    elif kind == 2:
        steps = np.arange(-800, 800) / 2.0
    else:
        steps = np.sort(rng.choice([-1, 1], 100) * 10.0 ** rng.uniform(-10, 3, 100))
    time = np.unique(start + steps)
    dec = np.asarray(mjd2000_to_decimal_year(time))
    ctx.note(year=year, time=time)
    gap = np.diff(time)
    inc = np.diff(dec)
    res = ulp(dec).max() + ulp(time).max() / 365
    ctx.check(np.all(inc >= 0), "never decreasing", got=inc.min())
    ctx.check(np.all(inc[gap > 366 * 2.5 * res] > 0), "strictly increasing")
    whole = cal.year_of(time)
    regular = ~((whole[1:] >= 1583) & (whole[:-1] <= 1582))
    ctx.check(np.all(inc[regular] <= gap[regular] / 365 * (1 + 1e-14) + 3 * res), "no jumps", got=(inc - gap / 365).max())
    ctx.check(np.all(inc[regular] >= gap[regular] / 366 * (1 - 1e-14) - 3 * res), "no stalls")
    years_ = np.unique(dec)
    back = np.asarray(decimal_year_to_mjd2000(years_))
    keep = (years_[1:] < 1582.9) | (years_[:-1] > 1583.0)
    ctx.check(np.all(np.diff(back)[keep] > 0), "inverse strictly increasing")
    ctx.key(time)


@REG.family(quick=1500, thorough=15000)
def civil(ctx, rng):
    """ civil dates of the Python calendar (Gregorian) """
    size = 20
    days = rng.integers(date(1583, 1, 1).toordinal(), date(9999, 12, 31).toordinal(), size)
    secs = rng.integers(0, 86400, size) * (rng.random(size) < 0.7)
    dates = [date.fromordinal(int(d)) for d in days]
    for i in range(0, size, 3):
        dates[i] = date(dates[i].year, *[(1, 1), (12, 31), (2, 28), (3, 1)][rng.integers(0, 4)])
    time = np.array([d.toordinal() - date(2000, 1, 1).toordinal() for d in dates]) + secs / 86400.0
    dec = np.asarray(mjd2000_to_decimal_year(time))
    frac = np.asarray(mjd2000_to_year_fraction(time))
    ctx.note(dates=[str(d) for d in dates], time=time)
    want = []
    for d, s in zip(dates, secs):
        first, nxt = date(d.year, 1, 1).toordinal(), (date(d.year + 1, 1, 1) if d.year < 9999 else date(9999, 12, 31) + timedelta(0)).toordinal()
        nxt += d.year == 9999
        want.append(Fraction(d.toordinal() - first) / (nxt - first) + Fraction(int(s), 86400 * (nxt - first)))
    ctx.close("year", np.floor(dec + 1e-9), [d.year for d in dates], rtol=0, atol=0)
    ctx.close("fraction", frac, [float(w) for w in want], rtol=0, atol=3e-14 + 1.1 * ulp(time) / 365)
    ctx.close("decimal year", dec, [d.year + float(w) for d, w in zip(dates, want)], rtol=0,
              atol=3e-14 + 1.1 * ulp(time) / 365 + 1.1 * ulp(dec))
    back = np.asarray(decimal_year_to_mjd2000(np.array([float(d.year) for d in dates])))
    ctx.equal("year start", back, np.array([float(date(d.year, 1, 1).toordinal() - date(2000, 1, 1).toordinal()) for d in dates]))


@REG.family(quick=800, thorough=8000)
def datetimes(ctx, rng):
    """ datetime objects """
    year = int(rng.choice([rng.integers(1, 9999), rng.integers(1900, 2101), 2000, 1900, 2004, 1]))
    kind = rng.integers(0, 4)
    if kind == 0:
        value = datetime(year, 1, 1)
    elif kind == 1:
        value = datetime(year, 12, 31, 23, 59, 59, 999999)
    else:
        value = datetime(year, 1, 1) + timedelta(days=int(rng.integers(0, 365)), seconds=int(rng.integers(0, 86400)),
                                                 microseconds=int(rng.integers(0, 1000000)))
    first, nxt = datetime(year, 1, 1), datetime(year + 1, 1, 1)
    want = year + Fraction((value - first) // timedelta(microseconds=1), (nxt - first) // timedelta(microseconds=1))
    ctx.note(value=str(value))
    got = datetime_to_decimal_year(value)
    ctx.check(abs(Fraction(got) - want) <= Fraction(1.01 * float(ulp(year + 1.0))), "decimal year", got=got, want=float(want))
    if year > 1582:
        mjd = (value - datetime(2000, 1, 1)) / timedelta(days=1)
        ctx.close("via MJD2000", mjd2000_to_decimal_year(mjd), got, rtol=0, atol=3e-12)
    for bad in (date(year, 1, 1), 2000.5, None, "2000-01-01"):
        ctx.raises("not a datetime", datetime_to_decimal_year, bad, exceptions=(TypeError,))
    ctx.key(str(value))


@REG.family(quick=800, thorough=8000)
def special(ctx, rng):
    """ non-finite and huge values, simplified conversions """
    shape = gen.shape(rng)
    time = np.asarray(instants(rng, shape))
    pick = rng.random(shape)
    time = np.where(pick < 0.3, rng.choice([np.nan, np.inf, -np.inf], shape), time)
    ctx.note(time=time)
    for func in (mjd2000_to_decimal_year, decimal_year_to_mjd2000, mjd2000_to_year_fraction):
        got = np.asarray(func(time))
        bad = ~np.isfinite(time)
        ctx.equal("non-finite", got[bad], time[bad])
        ctx.check(np.all(np.isfinite(got[~bad])), "finite", got=got)
    big = rng.choice([-1, 1], 8) * 10.0 ** rng.uniform(7, 300, 8)
    dec = np.asarray(mjd2000_to_decimal_year(big))
    ctx.close("huge times", dec, 2000 + big.astype(LD) / LD("365.2425"), rtol=5e-5)
    back = np.asarray(decimal_year_to_mjd2000(big))
    ctx.close("huge years", back, (big.astype(LD) - 2000) * LD("365.2425"), rtol=5e-5)
    frac = np.asarray(mjd2000_to_year_fraction(big))
    ctx.check(np.all((frac >= 0) & (frac <= 1)), "fraction of huge times", got=frac)
    fin = np.asarray(instants(rng, shape))
    ctx.close("simple decimal year", mjd2000_to_decimal_year_simple(fin), 2000 + fin.astype(LD) / LD("365.25"), rtol=4e-16, atol=2.5e-13 + ulp(fin) / 365)
    val = fin.astype(LD) / LD("365.25")
    frac = np.asarray(mjd2000_to_year_fraction_simple(fin), LD)
    diff = frac - (val - np.floor(val))
    diff = diff - np.round(diff)
    ctx.close("simple fraction", diff, np.zeros(shape), rtol=0, atol=ulp(np.asarray(val, float)) + 1.2e-16)
    dec = np.asarray(cal.to_decimal_year(fin), float)
    ctx.close("simple MJD2000", decimal_year_to_mjd2000_simple(dec), (dec.astype(LD) - 2000) * LD("365.25"), rtol=4e-16, atol=1e-300)
    ctx.key(time)
