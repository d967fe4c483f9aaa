"""C25 sub-solar point and magnetic local time"""
import os
from datetime import date
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import dip
from vk.checks.c22 import ephemeris, sidereal, wrap
import eoxmagmod.data
from eoxmagmod import eval_subsol, eval_mlt

REG = Registry(
    rule="a case is one batch of instants whose sub-solar points are compared with an independent ephemeris and whose "
         "magnetic local times are compared with vector geometry in the frame of the IGRF dipole of the epoch",
    assumptions=["dipole coefficients are taken from the packaged IGRF-14 file", "single precision results"],
)
LD = np.longdouble
SUBSOL = (-145731.0, 36890.0)
MLT = (-36525.0, 36890.0)


def _dipole():
    path = os.path.join(os.path.dirname(eoxmagmod.data.__file__), "IGRF14.shc")
    with open(path) as fin:
        rows = [line.split() for line in fin if line.strip() and not line.startswith("#")]
    coef = {(int(r[0]), int(r[1])): np.array(r[2:], float) for r in rows[2:] if r[0] == "1"}
    return np.array(rows[1], float), coef


EPOCHS, DIPOLE = _dipole()


def pole(time):
    """ dipole pole of the IGRF """
    year = time / 365.25 + 2000
    val = []
    for key in ((1, 0), (1, 1), (1, -1)):
        coef = DIPOLE[key]
        slope = (coef[-1] - coef[-2]) / (EPOCHS[-1] - EPOCHS[-2])
        val.append(np.where(year > EPOCHS[-1], coef[-1] + slope * (year - EPOCHS[-1]), np.interp(year, EPOCHS, coef)))
    return np.rad2deg(np.arctan2(-val[0], np.hypot(val[1], val[2]))), np.rad2deg(np.arctan2(-val[2], -val[1]))


def midnights(rng, num, low, high):
    """ day starts: month and year ends, leap days """
    first, last = [date.fromordinal(date(2000, 1, 1).toordinal() + int(v)).year for v in (low, high)]
    out = []
    for _ in range(num):
        year = int(rng.integers(first + 1, last))
        if rng.random() < 0.3:
            year = int(np.clip(rng.choice([1900, 1904, 2000, 1996, 1999, 2001, 2004, 2048, 1700, 2096, 2100 - 4]), first + 1, last - 1))
        month, day = [(1, 1), (12, 31), (2, 28), (3, 1), (2, 29 if year % 4 == 0 and (year % 100 or year % 400 == 0) else 28),
                      (int(rng.integers(1, 13)), int(rng.integers(1, 29)))][rng.integers(0, 6)]
        out.append(date(year, month, day).toordinal() - date(2000, 1, 1).toordinal())
    return np.array(out, float)


def times(rng, shape, limits, late=1.0):
    """ instants """
    num = int(np.prod(shape, dtype=int))
    low, high = limits
    day = midnights(rng, num, low, min(high, 36525))
    mode = rng.integers(0, 6, num)
    sign = rng.choice([-1.0, 1.0], num)
    out = np.select(
        [mode == 0, mode == 1, mode == 2, mode == 3],
        [day, day + sign * 10.0**rng.uniform(-11, 0, num), day + rng.integers(0, 24, num) / 24.0, np.nextafter(day, sign * np.inf)],
        default=rng.uniform(low, high, num))
    # avoid floods of warnings of the extrapolated IGRF
    out = np.where((out > 10900) & (rng.random(num) > late), out % 10000, out)
    return np.clip(out, low, np.nextafter(high, 0)).reshape(shape)


@REG.family(quick=3000, thorough=30000)
def sun(ctx, rng):
    """ sub-solar point """
    shape = () if rng.random() < 0.2 else (int(rng.choice([0, 1, 6, 20])),)
    time = np.asarray(times(rng, shape, SUBSOL if rng.random() < 0.3 else (-18263.0, 18200.0)))
    ctx.note(time=time)
    lat, lon = eval_subsol(gen.relayout(rng, time)[1] if time.size and time.ndim else (float(time) if time.ndim == 0 else time))
    ctx.check(np.shape(lat) == shape and np.shape(lon) == shape, "shape", got=(np.shape(lat), np.shape(lon)))
    dec, rasc, nutation = ephemeris(time)
    near = (time > -18263) & (time < 18263)
    want = wrap(rasc - sidereal(time) - nutation)
    ctx.close("sub-solar latitude", lat, dec, rtol=0, atol=np.where(near, 0.012, 0.03))
    ctx.close("sub-solar longitude", wrap(lon - want), np.zeros(shape), rtol=0, atol=np.where(near, 0.02, 0.04))
    ctx.check(np.all((np.abs(lat) <= 24) & (np.abs(lon) <= 180)), "ranges", got=(lat, lon))
    ctx.count("before 2000", int((time < 0).sum()))
    ctx.count("at day boundary", int((np.abs(time - np.round(time)) < 1e-6).sum()))
    ctx.key(time)


@REG.family(quick=1500, thorough=15000)
def continuity(ctx, rng):
    """ continuous motion, also across midnights, month and year ends """
    low, high = SUBSOL if rng.random() < 0.3 else (-18263.0, 18200.0)
    center = float(midnights(rng, 1, low, min(high, 36525))[0])
    step = 10.0**rng.uniform(-9, -0.5)
    time = center + np.arange(-30, 31) * step
    time = time[(time > low) & (time < high)]
    ctx.note(time=time)
    lat, lon = eval_subsol(time)
    gap = np.diff(time)
    ctx.check(np.all(np.abs(np.diff(lat)) <= 0.42 * gap + 2e-4), "latitude steps", got=lat)
    turn = wrap(np.diff(np.asarray(lon, LD)) + 360 * np.asarray(gap, LD))
    ctx.check(np.all(np.abs(turn) <= 0.15 * gap + 3e-4), "longitude steps", got=lon, turn=turn)
    order = rng.permutation(time.size)
    other = eval_subsol(time[order])
    ctx.equal("order of times (latitude)", np.asarray(other[0]), lat[order])
    ctx.equal("order of times (longitude)", np.asarray(other[1]), lon[order])
    i = int(rng.integers(0, time.size))
    alone = eval_subsol(float(time[i]))
    ctx.equal("alone", np.array([float(v) for v in alone]), np.array([lat[i], lon[i]]))
    if center > MLT[0] + 40 and center < 10900:
        qdlon = float(rng.uniform(-180, 180))
        mlt = eval_mlt(np.full(time.shape, qdlon), time)
        turn = (np.diff(np.asarray(mlt, LD)) - 24 * np.asarray(gap, LD) + 12) % 24 - 12
        # magnetic local time advances unevenly, as the dipole is tilted
        ctx.check(np.all(np.abs(turn) <= 24 * gap * 0.4 + 2e-4), "magnetic local time steps", got=mlt, turn=turn)
    ctx.key(time)


@REG.family(quick=3000, thorough=30000)
def local_time(ctx, rng):
    """ magnetic local time """
    shape = () if rng.random() < 0.2 else (int(rng.choice([0, 1, 6, 20])),)
    time = np.asarray(times(rng, shape, MLT if rng.random() < 0.4 else (-18263.0, 10900.0), late=0.2))
    if rng.random() < 0.3 and time.size:
        time = np.asarray(rng.choice(time.ravel()[:2], shape)) + rng.choice([0, 0.001, -0.9, 1.1], shape)
        time = np.clip(time, MLT[0], MLT[1] - 1)
    qdlon = np.asarray(np.where(rng.random(shape) < 0.2, rng.choice([0.0, 180.0, -180.0, 360.0, -360.0, 90.0], shape), rng.uniform(-200, 360, shape)))
    args = [gen.relayout(rng, a)[1] if a.ndim and a.size else (float(a) if a.ndim == 0 and rng.random() < 0.7 else a) for a in (qdlon, time)]
    ctx.note(qdlon=qdlon, time=time)
    mlt = eval_mlt(*args)
    ctx.check(np.shape(mlt) == shape, "shape", got=np.shape(mlt))
    ctx.check(np.all((mlt >= 0) & (mlt <= 24)), "range", got=mlt)
    lat, lon = eval_subsol(time)
    want = (np.asarray(qdlon, LD) - dip.sun_angle(*pole(time), lat, lon)[0]) / 15 + 12
    ctx.close("magnetic local time", (mlt - want + 12) % 24 - 12, np.zeros(shape), rtol=0, atol=8e-5)
    dec, rasc, nutation = ephemeris(time)
    want = (np.asarray(qdlon, LD) - dip.sun_angle(*pole(time), dec, wrap(rasc - sidereal(time) - nutation))[0]) / 15 + 12
    ctx.close("magnetic local time of the ephemeris", (mlt - want + 12) % 24 - 12, np.zeros(shape), rtol=0, atol=3e-3)
    ctx.count("before 2000", int((time < 0).sum()))
    ctx.key(time)


@REG.family(quick=1000, thorough=10000)
def batches(ctx, rng):
    """ order and neighbours of times in the batch, rate of 15 degrees per hour """
    size = 16
    time = np.asarray(times(rng, size, (-36525.0, 10900.0)))
    qdlon = rng.uniform(-180, 180, size)
    ctx.note(qdlon=qdlon, time=time)
    mlt = np.asarray(eval_mlt(qdlon, time))
    order = rng.permutation(size)
    diff = (np.asarray(eval_mlt(qdlon[order], time[order])) - mlt[order] + 12) % 24 - 12
    ctx.check(np.all(np.abs(diff) < 1e-4), "order of times", got=diff)
    diff = [(float(eval_mlt(float(q), float(t))) - m + 12) % 24 - 12 for q, t, m in zip(qdlon, time, mlt)]
    ctx.check(np.all(np.abs(diff) < 1e-4), "one by one", got=diff)
    # the same instant, many longitudes
    lon = np.sort(rng.uniform(-180, 180, size))
    mlt = np.asarray(eval_mlt(lon, np.full(size, time[0])), LD)
    rate = np.diff(mlt) - np.diff(lon) / 15
    ctx.check(np.all(np.abs((rate + 12) % 24 - 12) < 2e-5), "15 degrees per hour", got=rate)
    # times which are not supported do not affect the others
    broken = rng.random(size) < 0.4
    bad = np.where(broken, rng.choice([np.nan, np.inf, -np.inf, 1e6, -2e5, 36890.0, 1e300], size), time)
    got = np.asarray(eval_mlt(qdlon, bad))
    want = np.asarray(eval_mlt(qdlon[~broken], time[~broken]))
    ctx.check(np.all(np.isnan(got[broken])), "unsupported times", got=got)
    diff = (got[~broken] - want + 12) % 24 - 12
    ctx.check(np.all(np.abs(diff) < 1e-4), "next to unsupported times", got=diff)
    lat, lon = [np.asarray(v) for v in eval_subsol(bad)]
    ctx.check(np.all(np.isnan(lat[broken])) and np.all(np.isnan(lon[broken])), "unsupported times (Sun)", got=(lat, lon))
    two = eval_subsol(time)
    ctx.equal("Sun next to unsupported times", lat[~broken], np.asarray(two[0])[~broken])
    ctx.equal("Sun next to unsupported times ", lon[~broken], np.asarray(two[1])[~broken])
    ctx.count("unsupported times", int(broken.sum()))
    ctx.key(time)


@REG.family(quick=60, thorough=1200)
def long_batches(ctx, rng):
    """ thousands of points in one call """
    num = int(gen.loguniform(rng, 500, 20000))
    kind = int(rng.integers(0, 3))
    if kind == 0:
        # the same instant
        time = np.full(num, float(times(rng, 1, (-36525.0, 10900.0))[0]))
    elif kind == 1:
        # groups of points of the same instant
        time = np.sort(rng.choice(np.asarray(times(rng, 8, (-36525.0, 10900.0))), num))
    else:
        time = rng.uniform(0, 9000) + np.arange(num) * rng.choice([1e-6, 1e-5, 1e-3])
    qdlon = rng.uniform(-180, 180, num) if rng.random() < 0.5 else np.linspace(-180, 180, num)
    ctx.note(points=num, kind=kind, start=time[:3])
    mlt = np.asarray(eval_mlt(qdlon, time))
    lat, lon = (np.asarray(v) for v in eval_subsol(time))
    ctx.check(mlt.shape == lat.shape == lon.shape == (num,), "shapes")
    for _ in range(8):
        size = int(gen.loguniform(rng, 1, 400))
        start = int(rng.integers(0, max(1, num - size)))
        part = slice(start, start + size)
        diff = (np.asarray(eval_mlt(qdlon[part], time[part])) - mlt[part] + 12) % 24 - 12
        ctx.check(np.all(np.abs(diff) < 1e-4), "part of the batch", got=diff, start=start)
        two = eval_subsol(time[part])
        ctx.equal("part of the batch, latitude", np.asarray(two[0]), lat[part])
        ctx.equal("part of the batch, longitude", np.asarray(two[1]), lon[part])
    # all points of the same instant share one rate
    for value in np.unique(time)[:8]:
        where = np.flatnonzero(time == value)
        turn = mlt[where] - mlt[where[0]] - (qdlon[where] - qdlon[where[0]]) / 15
        ctx.check(np.all(np.abs((turn + 12) % 24 - 12) < 3e-5), "15 degrees per hour", got=turn)
    ctx.count("points", num)
    ctx.key(num, mlt[:3])
