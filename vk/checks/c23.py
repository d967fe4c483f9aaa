"""C23 magnetic universal time"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import dip, geo
from eoxmagmod import mjd2000_to_magnetic_universal_time as mut
from eoxmagmod.magnetic_time import get_subsol
from eoxmagmod.solar_position import sunpos

REG = Registry(
    rule="a case is one batch of times and dipole poles whose magnetic universal time is compared with the "
         "dipole longitude of the sub-solar point computed by vector geometry in extended precision",
)
LD = np.longdouble


def hours(a, b):
    """ difference of hours wrapped to +-12 """
    d = np.remainder(np.asarray(a, LD) - np.asarray(b, LD), LD(24))
    return np.where(d > 12, d - 24, d)


def poles(rng, shape):
    """ dipole poles: realistic, anywhere """
    lat = np.where(rng.random(shape) < 0.5, rng.uniform(75, 90, shape), gen.latitudes(rng, shape))
    return lat, gen.longitudes(rng, shape)


def times(rng, shape):
    """ instants """
    mode = rng.integers(0, 4, shape)
    return np.select([mode == 0, mode == 1, mode == 2],
                     [rng.uniform(-4e4, 4e4, shape), np.round(rng.uniform(-2e4, 2e4, shape) * 4) / 4,
                      rng.uniform(0, 9000, shape)], default=rng.uniform(-2e5, 2e5, shape))


@REG.family(quick=4000, thorough=40000)
def geometry(ctx, rng):
    """ against vector geometry """
    shape = gen.shape(rng)
    time = np.asarray(times(rng, shape))
    scalar_pole = rng.random() < 0.5
    lat, lon = poles(rng, () if scalar_pole else shape)
    if scalar_pole:
        lat, lon = float(lat), float(lon)
        if rng.random() < 0.1:
            lat, lon = [(0.0, 0.0), (0, 0), (90.0, 0.0), (-90, 0), (lat, 0), (0, lon)][rng.integers(6)]
    user = bool(rng.random() < 0.5)
    kwargs = {}
    if user:
        slat, slon = gen.latitudes(rng, shape), gen.longitudes(rng, shape)
        if rng.random() < 0.3:
            slat, slon = float(rng.uniform(-23.5, 23.5)), float(rng.uniform(-180, 180))
            if rng.random() < 0.5:
                # values which may be mistaken for missing ones
                zero = [0.0, 0, -0.0, np.float64(0), np.array(0.0)]
                slat = zero[rng.integers(5)] if rng.random() < 0.7 else slat
                slon = zero[rng.integers(5)] if rng.random() < 0.7 else slon
        elif rng.random() < 0.1:
            slat, slon = slat * 0.0, slon * 0.0
        if rng.random() < 0.08:
            # whole degrees of narrow or unsigned integer types
            slat, slon = rng.integers(0, 24, shape), rng.integers(0, 128, shape)
            lat, lon = int(rng.integers(60, 91)), int(rng.integers(-128, 128))
            kind = rng.choice(["i1", "i2", "i4", "i8"] + ["u1", "u2"] * (lon >= 0))
            slat, slon = slat.astype(kind), slon.astype(kind)
            if rng.random() < 0.5:
                lat, lon = (np.array(v).astype(kind if v < 128 and kind[0] == "i" or v >= 0 and kind[0] == "u" else "i8") for v in (lat, lon))
            ctx.count("integer coordinates")
        kwargs = {"lat_sol": slat, "lon_sol": slon}
        if rng.random() < 0.2:
            # both coordinates are needed
            kwargs.pop(str(rng.choice(["lat_sol", "lon_sol"])))
            user = False
    if not user:
        dec, _, hour, _, _ = sunpos(time, 0, 0, rad=0)
        slat, slon = dec, -hour
        sub = get_subsol(time)
        ctx.equal("sub-solar latitude", sub[0], slat)
        ctx.equal("sub-solar longitude", sub[1], slon)
    ctx.note(time=time, pole=(lat, lon), **{"sun": kwargs})
    ctx.count("user defined" if user else "computed")
    arg = time if rng.random() < 0.5 or not time.size else gen.relayout(rng, time, ["C", "F", "reversed", "strided", "readonly", "moved"])[1]
    got = np.asarray(mut(arg, lat, lon, **kwargs))
    lat, lon, slat, slon = (np.asarray(v, float) for v in (lat, lon, slat, slon))
    angle, dist = dip.sun_angle(lat, lon, slat, slon)
    want = 12 - angle / 15
    tol = 1e-13 + 4e-15 * (1 + np.abs(np.asarray(lon)) + np.abs(np.asarray(slon))) / np.maximum(np.asarray(dist, float), 1e-300)
    full = np.broadcast_shapes(np.shape(slat), np.shape(lat))
    whole = np.broadcast_shapes(full, shape)
    ctx.check(got.shape in (full, whole), "shape", got=got.shape, want=full)
    got = got if got.shape == full else got[(0,) * len(whole)] if full == () and got.size else got
    full = got.shape
    angle, dist, want, tol = (np.broadcast_to(v, full) for v in (angle, dist, want, tol))
    ctx.check(np.all((got >= 0) & (got <= 24)), "range", got=got)
    far = np.broadcast_to(np.asarray(dist, float) > 1e-7, full)
    ctx.close("time", np.where(far, hours(got, want), 0), np.zeros(full), rtol=0, atol=np.broadcast_to(tol, full))
    ctx.count("near_axis", int((~far).sum()))
    ctx.key(got)


@REG.family(quick=600, thorough=6000)
def advance(ctx, rng):
    """ continuous advance, one cycle per day """
    lat = float(rng.choice([-1, 1]) * rng.uniform(25, 90))
    lon = float(rng.uniform(-180, 180))
    start = float(rng.uniform(-3e4, 3e4))
    days = int(rng.integers(1, 5))
    num = 480
    time = start + np.arange(days * num + 1) / num
    got = np.asarray(mut(time, lat, lon))
    step = np.asarray(hours(got[1:], got[:-1]), float)
    ctx.note(pole=(lat, lon), start=start, days=days)
    if lat < 0:
        # the magnetic longitude of a reversed pole runs the other way
        step = -step
    ctx.check(np.all(step > 0), "the time increases", got=step.min())
    # at a distance from the dipole axis the rate is bounded
    bound = 24 / num * 1.02 / np.sin(np.radians(max(0.5, abs(lat) - 23.46)))
    ctx.check(np.all(step < bound + 1e-9), "no jumps", got=step.max(), want=bound)
    total = step.sum()
    ctx.check(abs(total - 24 * days) < 24 / 360.0 * (1 + 12 / max(0.05, np.sin(np.radians(abs(lat) - 23.46)))),
              "one cycle per day", got=total)
    wraps = int((np.abs(np.diff(got)) > 12).sum())
    ctx.check(days - 1 <= wraps <= days + 1, "one wrap per day", got=wraps)
    single = np.asarray([mut(float(t), lat, lon) for t in time[:5]])
    ctx.close("single times", single, got[:5], rtol=1e-13)
    ctx.key(got)


@REG.family(quick=400, thorough=4000)
def symmetry(ctx, rng):
    """ rotations about the axis """
    shape = (int(rng.integers(1, 9)),)
    slat, slon = rng.uniform(-23.5, 23.5, shape), rng.uniform(-180, 180, shape)
    lat, lon = rng.uniform(30, 89, shape), rng.uniform(-180, 180, shape)
    time = np.zeros(shape)
    base = mut(time, lat, lon, lat_sol=slat, lon_sol=slon)
    turn = rng.uniform(-180, 180, shape)
    ctx.note(sun=(slat, slon), pole=(lat, lon), turn=turn)
    ctx.close("common rotation", hours(mut(time, lat, lon + turn, lat_sol=slat, lon_sol=slon + turn), base), np.zeros(shape), rtol=0, atol=1e-12)
    ctx.close("full circle", hours(mut(time, lat, lon, lat_sol=slat, lon_sol=slon + 360), base), np.zeros(shape), rtol=0, atol=1e-12)
    mirror = mut(time, lat, lon, lat_sol=slat, lon_sol=2 * lon - slon)
    ctx.close("mirrored", hours(mirror + base, 24.0), np.zeros(shape), rtol=0, atol=1e-11)
    # geographic poles: plain local time of the prime meridian
    north = mut(time, 90.0, 0.0, lat_sol=slat, lon_sol=slon)
    ctx.close("geographic pole", hours(north, 12 - slon / 15), np.zeros(shape), rtol=0, atol=1e-12)
    noon = mut(time, lat, lon, lat_sol=-np.minimum(90 - lat, 23), lon_sol=lon)
    ctx.close("sun on the pole meridian", hours(noon, 12), np.zeros(shape), rtol=0, atol=1e-11)
    # user values do not depend on the time
    ctx.equal("any time", mut(times(rng, shape), lat, lon, lat_sol=slat, lon_sol=slon), base)
    ctx.key(base)
