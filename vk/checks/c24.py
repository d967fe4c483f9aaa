"""C24 quasi-dipole coordinates"""
import os
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import apex, geo
from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors
from eoxmagmod.data import APEX_2015, APEX_2020, APEX_2025, APEX_2030

REG = Registry(
    rule="a case is one sequence of evaluations mixing coefficient files, epochs, altitudes and base vector requests; each "
         "result is compared with the expansion stored in the file evaluated in extended precision",
    assumptions=["times of one call closer than a day to each other may share the epoch",
                 "a coefficient file is not rewritten while it is in use",
                 "single precision results are compared to 6e-5 degrees"],
)
LD = np.longdouble
FILES = {path: apex.ApexFile.read(path) for path in (APEX_2015, APEX_2020, APEX_2025, APEX_2030)}
NAMES = ("qdlat", "qdlon", "f11", "f12", "f21", "f22", "f")


def random_file(ctx, rng, index, folder=None):
    """ made-up coefficient file, dominated by a dipole

    With base directory the name of the file differs from the other files of the
    directory by few characters (of their beginning or end, in full directories).
    """
    nmax = int(rng.integers(1, 9))
    mmax = int(rng.integers(1, nmax + 1))
    lmax = int(rng.integers(0, 5))
    nepoch = int(rng.choice([1, 2, 3, 7]))
    epochs = np.cumsum(rng.choice([0.5, 5, 1, 13.25], nepoch)) + rng.choice([1900, 1990, 2000, 1.0])
    size = len(apex.terms(nmax, mmax))
    coef = rng.normal(size=(6, nepoch, lmax + 1, size)) * 0.05
    order = apex.terms(nmax, mmax)
    for axis, term in enumerate([(1, 1, 0), (1, 1, 1), (1, 0, 0)]):
        coef[axis, :, 0, order.index(term)] += 1.1
    name = ["apex", "dir with space/a b.txt", "x" * 200 + "/" + "y" * 220 + "/" + "z" * 200, "\u00fcnicode", "trailing "][rng.integers(0, 5)]
    path = os.path.join(ctx.work_dir, f"{os.getpid()}-{index}-{rng.integers(0, 1 << 40)}", name)
    if rng.random() < 0.1:
        # the longest supported name
        base = os.path.dirname(path)
        while len(os.fsencode(path)) < 1023:
            left = 1023 - len(os.fsencode(base)) - 1
            if left <= 255:
                path = os.path.join(base, "L" * left)
                break
            base = os.path.join(base, "d" * min(200, left - 20))
            path = base
    if folder:
        tail = "t" * int(rng.choice([0, 5, 100, 200]))
        path = os.path.join(folder, f"{index}{tail}" if rng.random() < 0.5 else f"{tail}{index}")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    content = apex.ApexFile(epochs, nmax, mmax, lmax, coef)
    content.write(path, rng)
    return path, content


def times(rng, content, shape):
    """ decimal years within, at and outside of the epochs """
    grid = content.epochs.astype(float)
    mode = rng.integers(0, 6, shape)
    near = rng.choice(grid, shape)
    span = max(grid[-1] - grid[0], 1)
    return np.select([mode == 0, mode == 1, mode == 2],
                     [near, near + rng.choice([-1, 1], shape) * 10.0**rng.uniform(-3, 0, shape), rng.uniform(-3, 5000, shape)],
                     default=grid[0] + rng.uniform(-0.3, 1.3, shape) * span)


def points(rng, shape):
    """ locations """
    alt = np.where(rng.random(shape) < 0.2, rng.choice([6371.2, 6471.0, 6821.0], shape),
                   rng.choice([6300 + 1000 * rng.random(shape), 10.0**rng.uniform(3.81, 5, shape)]))
    return np.asarray(gen.latitudes(rng, shape)), np.asarray(gen.longitudes(rng, shape)), np.asarray(alt)


def angle(lat, lon):
    """ unit vectors """
    s, c = geo.sincosd(np.asarray(lat, LD))
    sl, cl = geo.sincosd(np.asarray(lon, LD))
    return np.stack([c * cl, c * sl, s], axis=-1)


def judge(ctx, name, content, got, args, drift=False):
    """ compare """
    lat, lon, rad, time = args
    ref = content.evaluate(lat, lon, rad, time)
    keep = ref["norm"] > 0.1
    cond = np.asarray(ref["total"] / np.maximum(ref["norm"], 0.1), float)
    wide = np.asarray(np.abs(lon) / 180, float) + 1
    # the single precision geodetic latitude is less accurate close to the geographic poles
    rough = np.where(np.abs(np.asarray(lat)) > 89.7, 2e-4, 2e-5)
    tol = rough + 3e-6 * cond * wide + rough * (cond - np.minimum(cond, 10)) / 10
    spread = 0
    if drift:
        others = [content.evaluate(lat, lon, rad, time + part / 340.) for part in (-1, -0.5, 0.5, 1)]
        spread = np.max([np.abs(o["unit"] - ref["unit"]).max(axis=-1) for o in others], axis=0).astype(float) * 57.3 * 2
    qdlat, qdlon = got[:2]
    ctx.check(np.all((np.abs(qdlat) <= 90) & (np.abs(qdlon) <= 180)), name + " ranges", got=got[:2])
    diff = np.asarray(np.abs(angle(qdlat, qdlon) - ref["unit"]).max(axis=-1), float) * 57.3
    worst = np.where(keep, diff / (tol + spread), 0)
    ctx.check(np.all(worst < 1), name + " coordinates", got=got[:2], want=[ref["qdlat"], ref["qdlon"]], difference=diff, tolerance=tol)
    ctx.count("coordinates", int(np.sum(keep)))
    if len(got) == 7:
        tol = 0.5 * rough * cond + 2e-6 * cond * wide
        pole = np.asarray(1 / np.maximum(ref["cosqlat"], 1e-4), float)
        for key, val in zip(NAMES[2:], got[2:]):
            lim = tol * np.maximum(cond, 1) * (1 if key == "f" else pole)
            if drift:
                lim = lim + 2 * np.max([np.abs(o[key] - ref[key]) for o in others], axis=0).astype(float)
            err = np.where(keep, np.abs(np.asarray(val, LD) - ref[key]) / lim, 0)
            ctx.check(np.all(err < 1), f"{name} base vector {key}", got=val, want=ref[key], tolerance=lim)
        ctx.count("base vectors", int(np.sum(keep)))
    return ref


def call(rng, args, path, base):
    """ evaluate """
    given = [gen.relayout(rng, a)[1] if a.ndim and a.size else (float(a) if a.ndim == 0 and rng.random() < 0.7 else a) for a in args]
    func = eval_qdlatlon_with_base_vectors if base else eval_qdlatlon
    mode = rng.integers(0, 3)
    if path == APEX_2030 and mode == 0:
        return func(*given)
    return func(*given, fname=path) if mode == 1 else func(*given, path)


@REG.family(quick=700, thorough=8000)
def history(ctx, rng):
    """ sequences of calls """
    pool = dict(FILES)
    base = None
    if rng.random() < 0.4:
        base = os.path.join(ctx.work_dir, f"{os.getpid()}-{rng.integers(0, 1 << 40)}", *["p" * 200] * int(rng.integers(0, 4)))
        pool = {}
    for i in range(rng.integers(2 if base else 0, 4)):
        path, content = random_file(ctx, rng, i, base)
        pool[path] = content
    paths = list(pool)
    log, memory = [], []
    common = points(rng, ())
    for _ in range(rng.integers(2, 8)):
        path = paths[rng.integers(0, len(paths))]
        content = pool[path]
        base = bool(rng.random() < 0.5)
        shape = () if rng.random() < 0.2 else (int(rng.choice([0, 1, 5, 12])),)
        args = list(points(rng, shape))
        if rng.random() < 0.3:
            # the same altitude, location again
            for k in range(3):
                if rng.random() < 0.8:
                    args[k] = np.full(shape, float(common[k]))
        kind = rng.integers(0, 4)
        if kind == 0 or shape == ():
            time = np.full(shape, float(times(rng, content, ())))
        elif kind == 1:
            time = np.asarray(rng.choice(times(rng, content, 3), shape))
        else:
            time = times(rng, content, shape)
        if time.size > 1:
            # distinct epochs are days apart
            gap = np.abs(time[:, None] - time[None, :])
            drift = bool(np.any((gap > 0) & (gap < 0.008)))
        else:
            drift = False
        args.append(np.asarray(time))
        log.append((path, base, args))
        ctx.note(calls=log[-3:])
        got = call(rng, args, path, base)
        ctx.check(len(got) == (7 if base else 2) and all(np.shape(v) == shape for v in got), "shapes", got=[np.shape(v) for v in got])
        got = [np.asarray(v) for v in got]
        judge(ctx, "history", content, got, args, drift)
        memory.append((path, base, args, got))
    # earlier calls repeated
    for k in rng.permutation(len(memory))[:3]:
        path, base, args, first = memory[k]
        again = call(rng, args, path, base)
        other = call(rng, args, path, not base)
        for key, one, two in zip(NAMES, first, again):
            ctx.equal("repeated " + key, np.asarray(two), one)
        for key, one, two in zip(NAMES[:2], first, other):
            ctx.equal("with or without base vectors " + key, np.asarray(two), one)
        # each point alone
        if first[0].ndim and first[0].size and not np.any(np.diff(args[3])):
            i = int(rng.integers(0, first[0].size))
            alone = call(rng, [np.asarray(a[i]) for a in args], path, base)
            for key, one, two in zip(NAMES, first, alone):
                ctx.equal("alone " + key, np.asarray(two), one[i])
    ctx.key(log[0][2][3])
    for path in paths:
        if path not in FILES:
            os.unlink(path)


@REG.family(quick=60, thorough=1500)
def batches(ctx, rng):
    """ thousands of points in one call """
    path = list(FILES)[rng.integers(0, len(FILES))]
    content = FILES[path]
    num = int(gen.loguniform(rng, 300, 20000))
    args = list(points(rng, (num,)))
    year = np.unique(np.round(times(rng, content, int(rng.integers(1, 4))), 1))
    # the epochs follow each other, as along an orbit
    args.append(np.sort(rng.choice(year, num)))
    base = bool(rng.random() < 0.6)
    ctx.note(path=path, base=base, points=num, epochs=year)
    got = [np.asarray(v) for v in call(rng, args, path, base)]
    ctx.check(len(got) == (7 if base else 2) and all(v.shape == (num,) for v in got), "shapes")
    # sample compared with the reference
    pick = np.concatenate([rng.integers(0, num, 30), [0, num - 1]])
    judge(ctx, "batch", content, [v[pick] for v in got], [a[pick] for a in args])
    # the same points in smaller groups of the same epoch
    for value in year:
        where = np.flatnonzero(args[3] == value)
        for _ in range(3):
            if where.size:
                some = rng.choice(where, min(where.size, int(gen.loguniform(rng, 1, 500))), replace=False)
                part = call(rng, [a[some] for a in args], path, bool(rng.random() < 0.5))
                for key, one, two in zip(NAMES, got, part):
                    ctx.equal("group of the batch " + key, np.asarray(two), one[some])
    ctx.count("points", num)
    ctx.key(num, got[0][:3])


@REG.family(quick=800, thorough=8000)
def epochs(ctx, rng):
    """ interpolation in time of one place """
    if rng.random() < 0.6:
        path = list(FILES)[rng.integers(0, 4)]
        content = FILES[path]
    else:
        path, content = random_file(ctx, rng, 0)
    grid = content.epochs.astype(float)
    time = np.unique(np.round(np.concatenate([grid, times(rng, content, 20), [grid[0] - 5, grid[-1] + 5]]) * 64) / 64)
    if rng.random() < 0.5:
        time = rng.permutation(time)
    lat, lon, rad = [np.full(time.shape, float(v)) for v in points(rng, ())]
    ctx.note(path=path, args=(lat[0], lon[0], rad[0], time))
    got = [np.asarray(v) for v in eval_qdlatlon_with_base_vectors(lat, lon, rad, time, path)]
    judge(ctx, "epochs", content, got, (lat, lon, rad, time))
    for side in (time <= grid[0], time >= grid[-1]):
        for key, val in zip(NAMES, got):
            part = val[side]
            ctx.equal("constant outside " + key, part, np.full(part.shape, part[0] if part.size else 0))
    ctx.count("times outside of the file", int(((time < grid[0]) | (time > grid[-1])).sum()))
    ctx.key(time)
    if path not in FILES:
        os.unlink(path)


@REG.family(quick=600, thorough=6000)
def geometry(ctx, rng):
    """ periodicity, continuity and base vectors from differences """
    path = list(FILES)[rng.integers(0, 4)]
    size = 20
    lat, lon, rad = points(rng, size)
    lat = lat * 0.98
    lon = np.remainder(lon + 180, 360) - 180
    time = np.full(size, rng.uniform(1990, 2025))
    ctx.note(path=path, lat=lat, lon=lon, rad=rad, time=time[0])
    base = eval_qdlatlon_with_base_vectors(lat, lon, rad, time, path)
    turn = eval_qdlatlon(lat, lon + 360.0 * rng.choice([-1, 1], size), rad, time, path)
    diff = np.abs(angle(*turn) - angle(*base[:2])).max(axis=-1)
    ctx.check(np.all(diff < 4e-6), "periodic in longitude", got=turn, want=base[:2], difference=diff)
    near = eval_qdlatlon(lat + 0.01, lon - 0.01, rad * 1.0001, time, path)
    diff = np.abs(angle(*near) - angle(*base[:2])).max(axis=-1)
    ctx.check(np.all(diff < 6e-3), "continuous", difference=diff, got=near, want=base[:2])
    # gradient of the coordinates along the geodetic east and north
    step = 0.25
    gdlat, gdlon, height = np.moveaxis(np.asarray(geo.cart2geod(np.stack(geo.sph2cart(lat, lon, rad), axis=-1)), LD), -1, 0)
    s = geo.sincosd(gdlat)[0]
    prime = geo.A / np.sqrt(1 - apex.ECC2 * s * s)
    here = angle(*base[:2])
    qlat, qlon = [np.asarray(v, LD) * geo.DEG for v in base[:2]]
    north = np.stack([-np.sin(qlat) * np.cos(qlon), -np.sin(qlat) * np.sin(qlon), np.cos(qlat)], axis=-1)
    east = np.stack([-np.sin(qlon), np.cos(qlon), 0 * qlon], axis=-1)

    def slope(dlat, dlon, scale):
        sides = []
        for sign in (-1, 1):
            sph = geo.cart2sph(np.stack(geo.geod2cart(gdlat + sign * dlat, gdlon + sign * dlon, height), axis=-1))
            sph = np.asarray(sph, float)
            sides.append(angle(*eval_qdlatlon(sph[..., 0].copy(), sph[..., 1].copy(), sph[..., 2].copy(), time, path)))
        vec = (sides[1] - sides[0]) / (2 * step * geo.DEG) * scale[..., None]
        return (vec * north).sum(axis=-1), (vec * east).sum(axis=-1)

    ref = apex.RE + height
    cos = geo.sincosd(gdlat)[1]
    lat_n, lon_n = slope(step, 0, ref / (height + prime * (1 - apex.ECC2) / (1 - apex.ECC2 * s * s)))
    wide = step / cos
    keep = cos > 0.05
    lat_e, lon_e = slope(0, np.where(keep, wide, 0), ref / (height + prime))
    for key, got, want in (("f11", base[2], lat_n), ("f12", base[3], -lat_e), ("f21", base[4], -lon_n), ("f22", base[5], lon_e)):
        ctx.check(np.all(np.abs(np.asarray(got) - want)[keep & (np.abs(base[0]) < 85)] < 0.02), "gradient " + key, got=got, want=want)
    f11, f12, f21, f22, fval = base[2:]
    ctx.close("F", fval, f11 * f22 - f12 * f21, rtol=0, atol=3e-6 * (1 + np.abs(f11 * f22) + np.abs(f12 * f21)))
    ctx.check(np.all(fval > 0), "F positive", got=fval)
    ctx.key(lat)


@REG.family(quick=500, thorough=5000)
def undefined(ctx, rng):
    """ NaN and infinite inputs do not affect the other points """
    path = list(FILES)[rng.integers(0, 4)]
    content = FILES[path]
    size = 12
    args = [np.asarray(v) for v in points(rng, size)] + [np.full(size, rng.uniform(1990, 2025))]
    if rng.random() < 0.5:
        args[2] = np.full(size, 6800.0)
    broken = rng.random(size) < 0.3
    which = rng.integers(0, 4, size)
    value = rng.choice([np.nan, np.inf, -np.inf, 1e300], size)
    bad = [np.where(broken & (which == i), np.where((i == 3) | (rng.random(size) < 0.5), np.nan, value), a) for i, a in enumerate(args)]
    ctx.note(path=path, args=bad)
    base = bool(rng.random() < 0.5)
    func = eval_qdlatlon_with_base_vectors if base else eval_qdlatlon
    got = [np.asarray(v) for v in func(*bad, path)]
    judge(ctx, "with undefined", content, [v[~broken] for v in got], [a[~broken] for a in args])
    nan = broken & (which == 3)
    for key, val in zip(NAMES, got):
        ctx.check(np.all(np.isnan(val[nan])), "NaN time " + key, got=val)
    good = [np.asarray(v) for v in func(*args, path)]
    for key, one, two in zip(NAMES, good, got):
        ctx.equal("neighbours " + key, two[~broken], one[~broken])
    ctx.count("undefined points", int(broken.sum()))
    ctx.key(args[0])
