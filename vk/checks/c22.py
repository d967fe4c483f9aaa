"""C22 solar position"""
import numpy as np
from vk.core import Registry
from vk import gen
from eoxmagmod.solar_position import sunpos, sunpos_original

REG = Registry(
    rule="a case is one batch of instants and locations whose solar coordinates are compared with an independent "
         "ephemeris (Newcomb's theory with planetary terms, IAU sidereal time) and with vector geometry in extended precision",
    assumptions=["the original algorithm is compared from 2000-03-01 to 2400-02-28 only, where its calendar is documented to be exact"],
)
LD = np.longdouble
RAD = np.pi / 180
AU = 149597870.7


def wrap(angle):
    """ +-180 """
    return (np.asarray(angle, LD) + 180) % 360 - 180


def ephemeris(terrestrial):
    """ apparent declination and right ascension (J. Meeus, Astronomical formulae for calculators), obliquity, equation of equinoxes """
    cent = (np.asarray(terrestrial, float) - 0.5 + 36525) / 36525.0
    node = (259.18 - 1934.142 * cent) * RAD
    mean = (358.47583 + 35999.04975 * cent - 0.000150 * cent**2 - 0.0000033 * cent**3) * RAD
    lon = 279.69668 + 36000.76892 * cent + 0.0003025 * cent**2
    lon += ((1.919460 - 0.004789 * cent - 0.000014 * cent**2) * np.sin(mean)
            + (0.020094 - 0.0001 * cent) * np.sin(2 * mean) + 0.000293 * np.sin(3 * mean))
    for coef, base, rate, func in (
            (0.00134, 153.23, 22518.7541, np.cos), (0.00154, 216.57, 45037.5082, np.cos),
            (0.00200, 312.69, 32964.3577, np.cos), (0.00179, 350.74, 445267.1142, np.sin), (0.00178, 231.19, 20.20, np.sin)):
        lon += coef * func((base + rate * cent) * RAD)
    lon = (lon - 0.00569 - 0.00479 * np.sin(node)) * RAD
    obl = (23.452294 - 0.0130125 * cent - 0.00000164 * cent**2 + 0.000000503 * cent**3 + 0.00256 * np.cos(node)) * RAD
    dec = np.arcsin(np.sin(obl) * np.sin(lon)) / RAD
    rasc = np.arctan2(np.cos(obl) * np.sin(lon), np.cos(lon)) / RAD % 360
    return dec, rasc, -17.2 / 3600 * np.sin(node) * np.cos(obl)


def sidereal(time):
    """ Greenwich mean sidereal time in degrees """
    days = np.asarray(time, LD) - LD(0.5)
    return LD("280.46061837") + LD("360.98564736629") * days + LD("0.000387933") * (days / 36525)**2


def times(rng, shape):
    """ instants 2000 to 2100 """
    mode = rng.integers(0, 5, shape)
    return np.select([mode == 0, mode == 1, mode == 2],
                     [np.floor(rng.uniform(0, 36525, shape)), np.floor(rng.uniform(0, 36525, shape) * 24) / 24,
                      np.floor(rng.uniform(0, 36525, shape)) + rng.choice([-1e-9, 1e-9, 0.5], shape)],
                     default=rng.uniform(0, 36525, shape))


def arguments(rng, shape):
    """ the arguments, each either an array of the common shape or a scalar """
    out = [np.asarray(times(rng, shape)), np.asarray(gen.latitudes(rng, shape)), np.asarray(gen.longitudes(rng, shape)),
           np.asarray(rng.choice([0.0, 6371.2, 6371.2, 6800.0, 42000.0, 400000.0, float(10.0**rng.uniform(-3, 6))], shape)), np.asarray(rng.choice([0.0, 65.0, 69.184, -10, 200.0], shape))]
    for i in range(1, 5):
        if rng.random() < 0.3:
            out[i] = np.asarray(out[i].flat[0] if out[i].size else 10.0)
    if rng.random() < 0.1:
        out[0] = np.asarray(float(rng.uniform(0, 36525)))
    return out


def split(args):
    """ broadcast copies in extended precision """
    return [np.asarray(a, LD) for a in np.broadcast_arrays(*args)]


def horizon(ctx, name, lat, dec, hour, azimuth, zenith, parallax, refraction=0):
    """ horizontal coordinates of the direction """
    lat, dec, hour = [np.asarray(a, LD) * (LD("3.14159265358979323846264338327950288") / 180) for a in (lat, dec, hour)]
    up = np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(hour)
    east = -np.cos(dec) * np.sin(hour)
    north = np.cos(lat) * np.sin(dec) - np.sin(lat) * np.cos(dec) * np.cos(hour)
    flat = np.hypot(east, north)
    tol = 1e-15 / np.maximum(np.asarray(flat, float), 2e-8) / RAD + 1e-13
    # cosine of the latitude is calculated from its sine
    tol = tol + 3e-16 / np.maximum(np.asarray(np.cos(lat), float), 1e-8) / RAD
    elevation = np.arctan2(up, flat) - flat * parallax
    if np.any(refraction):
        bend = np.where(elevation > 0, refraction / np.tan(np.maximum(elevation, 0) + LD(0.003138) / (np.maximum(elevation, 0) + LD(0.08919))), 0)
        # the correction has a step at the horizon
        clear = np.abs(elevation) > 1e-12
    else:
        bend, clear = 0, True
    want = 90 - (elevation + bend) / RAD
    ctx.close(name + " zenith", np.where(clear, zenith, want), want, rtol=0, atol=3 * tol + 1e-12)
    diff = wrap(np.asarray(azimuth, LD) - np.arctan2(east, north) * (180 / LD("3.14159265358979323846264338327950288")))
    ctx.close(name + " azimuth", np.where(flat > 1e-7, diff, 0), np.zeros(flat.shape), rtol=0,
              atol=2e-12 + (1e-14 + 3e-16 / np.maximum(np.asarray(np.cos(lat), float), 1e-8)) / np.maximum(np.asarray(flat, float), 1e-7) / RAD)
    ctx.check(np.all(np.isfinite(azimuth) & (azimuth >= -180) & (azimuth <= 180)), name + " azimuth range", got=azimuth)
    ctx.count("below the horizon", int((up < 0).sum()))


def equatorial(ctx, name, time, lon, dtt, out, atol=0.005):
    """ equatorial coordinates """
    dec, rasc, nutation = ephemeris(time + dtt / 86400)
    # the neighbouring centuries
    apart = np.asarray(np.maximum(np.maximum(-time, time - 36525), 0) / 36525, float)
    atol = atol * (1 + 1.5 * apart)
    ctx.count("other centuries", int((apart > 0).sum()))
    ctx.close(name + " declination", out[0], dec, rtol=0, atol=atol)
    ctx.close(name + " right ascension", wrap(out[1] - rasc), np.zeros(rasc.shape), rtol=0, atol=atol)
    ctx.check(np.all((out[1] >= 0) & (out[1] <= 360)), name + " right ascension range", got=out[1])
    want = wrap(sidereal(time) + nutation + lon - out[1])
    ctx.close(name + " hour angle", wrap(out[2] - want), np.zeros(rasc.shape), rtol=0, atol=0.0015 * (1 + 1.5 * apart))
    ctx.check(np.all((out[2] >= -180) & (out[2] <= 180)), name + " hour angle range", got=out[2])


@REG.family(quick=4000, thorough=50000)
def revised(ctx, rng):
    """ revised algorithm """
    shape = gen.shape(rng)
    args = arguments(rng, shape)
    if rng.random() < 0.3:
        args[0] = args[0] + rng.choice([-36525, -20000, 36525, -1], args[0].shape)
    ctx.note(args=args)
    given = [gen.relayout(rng, a)[1] if a.ndim and a.size else (float(a) if a.ndim == 0 and rng.random() < 0.5 else a) for a in args]
    if args[3].ndim == 0 and args[3] == 6371.2 and args[4].ndim == 0:
        out = sunpos(*given[:3], dtt=given[4]) if rng.random() < 0.5 else sunpos(*given[:3], 6371.2, given[4])
    else:
        out = sunpos(*given)
    time, lat, lon, rad, dtt = split(args)
    ctx.check(len(out) == 5 and all(np.shape(v) == time.shape for v in out), "shapes", got=[np.shape(v) for v in out])
    equatorial(ctx, "revised", time, lon, dtt, out)
    horizon(ctx, "revised", lat, out[0], out[2], out[3], out[4], rad / LD(149597871))
    ctx.key(args[0])


@REG.family(quick=3000, thorough=30000)
def original(ctx, rng):
    """ original algorithm and its agreement with the revised one """
    shape = gen.shape(rng)
    args = arguments(rng, shape)
    args[0] = np.where(args[0] < 60, args[0] + 61, args[0])
    if rng.random() < 0.2:
        args[0] = args[0] * 4 - 180 if np.all(args[0] > 100) else args[0]
        args[0] = np.where(args[0] > 146100, 146000.25, args[0])
    pres = np.asarray(rng.choice([0.0, 1.0, 0.5, -1.0, 1.1], shape))
    temp = np.asarray(rng.choice([20.0, 0.0, -40.0, 45.0], shape))
    if rng.random() < 0.3:
        pres = np.asarray(pres.flat[0] if pres.size else 1.0)
    if rng.random() < 0.3:
        temp = np.asarray(temp.flat[0] if temp.size else 1.0)
    given = [gen.relayout(rng, a)[1] if a.ndim and a.size else a for a in args + [pres, temp]]
    if rng.random() < 0.2:
        pres, temp = np.asarray(1.0), np.asarray(20.0)
        given = given[:5]
    ctx.note(args=args, pres=pres, temp=temp)
    out = sunpos_original(*given)
    time, lat, lon, rad, dtt, pres, temp = split(args + [pres, temp])
    ctx.check(len(out) == 5 and all(np.shape(v) == time.shape for v in out), "shapes", got=[np.shape(v) for v in out])
    near = time <= 36525
    if np.all(near):
        equatorial(ctx, "original", time, lon, dtt, out)
    refraction = np.where(pres > 0, LD(0.08422) * pres / (273 + temp), 0)
    horizon(ctx, "original", lat, out[0], out[2], out[3], out[4], rad / LD(149597871), refraction)
    other = sunpos(*args)
    # resolution of the time and the rounded seconds to days conversion
    for name, got, want in zip(("declination", "right ascension", "hour angle"), out, other):
        ctx.close("original against revised " + name, wrap(got - want), np.zeros(time.shape), rtol=0, atol=1e-7)
    ctx.key(args[0])


@REG.family(quick=1500, thorough=15000)
def overhead(ctx, rng):
    """ locations exactly below or opposite of the Sun, at the poles, on the terminator """
    size = 60
    time = np.asarray(times(rng, size)) + 61
    dtt = np.full(size, float(rng.choice([0, 69.2])))
    zero = np.zeros(size)
    dec, _, hour, _, _ = sunpos(time, zero, zero, zero, dtt)
    sign = np.where(rng.random(size) < 0.5, 1.0, -1.0)
    kind = rng.integers(0, 4, size)
    lat = np.select([kind == 0, kind == 1], [dec * sign, sign * 90], default=dec * sign * (1 + rng.choice([0, 1e-15, 1e-9], size)))
    lon = -hour + np.where(sign < 0, 180, 0)
    rad = rng.choice([0.0, 6371.2], size)
    ctx.note(time=time, lat=lat, lon=lon, rad=rad)
    for name, func, args in (("revised", sunpos, ()), ("original", sunpos_original, (zero, zero))):
        out = func(time, lat, lon, rad, dtt, *args)
        ctx.check(all(np.all(np.isfinite(v)) for v in out), name + " finite", got=out)
        horizon(ctx, name, lat, out[0], out[2], out[3], out[4], rad / LD(149597871))
        want = np.where(np.abs(lat) == 90, 90 - sign * dec, np.where(sign > 0, 0, 180))
        pole = np.abs(lat) == 90
        ctx.close(name + " zenith", np.where(pole & (rad > 0), want, out[4]), want, rtol=0, atol=4e-6)
    out = sunpos_original(time, lat, lon, rad, dtt)
    ctx.check(all(np.all(np.isfinite(v)) for v in out), "refraction finite", got=out)
    ctx.key(time)


@REG.family(quick=1000, thorough=10000)
def rotation(ctx, rng):
    """ dependence on location and time only through the rotation of the Earth """
    size = 30
    time = np.full(size, float(times(rng, 1)[0]))
    lon = np.sort(gen.longitudes(rng, size))
    lat = gen.latitudes(rng, size)
    dtt = np.full(size, float(rng.choice([0, 65.0])))
    rad = np.full(size, 6371.2)
    out = sunpos(time, lat, lon, rad, dtt)
    base = sunpos(time[0], 0.0, 0.0, 0.0, dtt[0])
    ctx.note(time=time[0], lat=lat, lon=lon)
    ctx.close("declination", out[0], np.full(size, base[0]), rtol=0, atol=0)
    ctx.close("right ascension", out[1], np.full(size, base[1]), rtol=0, atol=0)
    ctx.close("hour angle", wrap(out[2] - base[2] - lon), np.zeros(size), rtol=0, atol=1e-8)
    # one solar day and smooth change in time
    step = time[0] + np.linspace(-1, 1, size) * 10.0**rng.uniform(-6, 0)
    fixed = [np.full(size, v) for v in (lat[0], lon[0], 6371.2, dtt[0])]
    out = sunpos(step, *fixed)
    gap = np.diff(step)
    ctx.check(np.all(np.abs(np.diff(out[0])) <= gap * 0.45 + 1e-9), "declination change", got=out[0])
    change = wrap(np.diff(out[1]))
    ctx.check(np.all((change >= gap * 0.85 - 1e-9) & (change <= gap * 1.15 + 1e-9)), "right ascension change", got=out[1])
    change = wrap(np.diff(out[2]) - 360 * np.asarray(gap, LD))
    ctx.check(np.all(np.abs(change) <= gap * 0.2 + 1e-8), "hour angle change", got=out[2])
    ctx.check(np.all(np.abs(np.diff(out[4])) <= gap * 366 + 1e-6), "zenith change", got=out[4])
    ctx.key(time[0])


@REG.family(quick=400, thorough=3000)
def past_and_future(ctx, rng):
    """ finite and in range for any time """
    shape = gen.shape(rng)
    time = np.asarray(rng.choice([-1, 1], shape) * 10.0**rng.uniform(3, 6, shape))
    lat, lon = np.asarray(gen.latitudes(rng, shape)), np.asarray(gen.longitudes(rng, shape))
    ctx.note(time=time, lat=lat, lon=lon)
    out = sunpos(time, lat, lon, 0.0, 0.0)
    ctx.check(all(np.all(np.isfinite(v)) for v in out), "finite", got=out)
    horizon(ctx, "any time", lat, out[0], out[2], out[3], out[4], LD(0))
    ctx.check(np.all(np.abs(out[0]) <= 25), "declination range", got=out[0])
    near = np.where(np.abs(time) < 36525, time, 0.0)
    out = sunpos(near, lat, lon, 0.0, 0.0)
    equatorial(ctx, "past", np.asarray(near, LD), np.asarray(lon, LD), LD(0), out, atol=0.02)
