"""C30 interface of the quasi-dipole library"""
import ctypes
import glob
import os
import numpy as np
from vk.core import Registry
from vk import gen
from vk.checks.c24 import random_file
import eoxmagmod
from eoxmagmod import data as edata
from eoxmagmod import eval_mlt, eval_qdlatlon, eval_qdlatlon_with_base_vectors, eval_subsol

REG = Registry(
    rule="a case is a sequence of calls of the functions exported by the loaded libqdipole on exactly allocated, "
         "guarded buffers, whose statuses, outputs, inputs and surroundings are compared with those of the "
         "Python functions, or one location converted to and from the QD coordinates",
    assumptions=["calls are made by one thread", "the library is built by the GNU compilers"],
)
MISSING = -9999.0
RE = 6378.137 * (1 - 1 / 298.257223563 / 3)
FILES = sorted({str(getattr(edata, n)) for n in dir(edata) if n.startswith("APEX_")})
NAMES = ("qdlat", "qdlon", "f11", "f12", "f21", "f22", "f")


def library():
    """ the library loaded by the extension """
    path = None
    with open("/proc/self/maps", encoding="utf8", errors="replace") as fin:
        for line in fin:
            name = line.rstrip("\n").partition("/")[2]
            if "libqdipole" in os.path.basename(name):
                path = "/" + name
    if path is None:
        path = sorted(glob.glob(os.path.join(os.environ["VK_TARGET"], "**", "libqdipole.so*"), recursive=True))[0]
    lib = ctypes.CDLL(path)
    lib.get_qdipole_max_fname_lenght.restype = ctypes.c_size_t
    lib.get_qdipole_version.restype = ctypes.c_char_p
    return lib


LIB = library()
LIBC = ctypes.CDLL(None)
LIBC.malloc.restype = ctypes.c_void_p
LIBC.malloc.argtypes = [ctypes.c_size_t]
LIBC.free.argtypes = [ctypes.c_void_p]


class Buffer:
    """ exactly allocated array of doubles surrounded by canaries """
    GUARD = 4

    def __init__(self, rng, size, values=None):
        self.size = size
        self.canary = rng.integers(1, 1 << 62, size + 2 * self.GUARD).view(np.float64)
        self.raw = LIBC.malloc(8 * self.canary.size)
        self.view = np.ctypeslib.as_array((ctypes.c_double * self.canary.size).from_address(self.raw))
        self.view[:] = self.canary
        self.data = self.view[self.GUARD:self.GUARD + size]
        if values is not None:
            self.data[:] = values
        self.keep = self.view.tobytes()

    @property
    def pointer(self):
        """ first element """
        return ctypes.cast(self.raw + 8 * self.GUARD, ctypes.POINTER(ctypes.c_double))

    def surroundings(self):
        """ the canaries are there """
        edge = self.GUARD
        return (self.view[:edge].tobytes() == self.canary[:edge].tobytes()
                and self.view[edge + self.size:].tobytes() == self.canary[edge + self.size:].tobytes())

    def untouched(self):
        """ nothing has changed """
        return self.view.tobytes() == self.keep

    def free(self):
        """ release """
        self.data = self.view = None
        LIBC.free(self.raw)


def invoke(ctx, rng, func, num_out, inputs, extra, fails=False):
    """ call the C function """
    num = len(inputs[0])
    outs = [Buffer(rng, num) for _ in range(num_out)]
    ins = [Buffer(rng, num, v) for v in inputs]
    name = func.__name__
    try:
        status = func(*[b.pointer for b in outs], *[b.pointer for b in ins], ctypes.c_int(num), *extra)
        for pos, item in enumerate(ins):
            ctx.check(item.untouched(), f"{name}: input {pos} has been modified")
        for pos, item in enumerate(outs):
            ctx.check(item.surroundings(), f"{name}: written out of the output {pos}", size=num)
        ctx.check((status != 0) if fails else (status == 0), f"{name}: status", status=status)
        ctx.count("status " + ("failure" if fails else "success"))
        return [np.array(b.data) for b in outs]
    finally:
        for item in outs + ins:
            item.free()


def years(rng, num):
    """ times """
    base = rng.uniform(1980, 2030, num) if rng.random() < 0.5 else np.full(num, rng.uniform(1980, 2030))
    return np.where(rng.random(num) < 0.05, np.nan, base) if rng.random() < 0.3 else base


def places(rng, num):
    """ radius, latitude, longitude """
    return (rng.uniform(6300, 12000, num), np.asarray(gen.latitudes(rng, (num,))), np.asarray(gen.longitudes(rng, (num,))))


def broken(ctx, rng):
    """ file which cannot be used """
    kind = int(rng.integers(0, 6))
    root = os.path.join(ctx.work_dir, f"{os.getpid()}-{rng.integers(0, 1 << 40)}")
    if kind == 0:
        return root + "-missing"
    if kind == 1:
        os.makedirs(root)
        return root
    if kind == 2:
        return root + "/" + "x" * int(rng.choice([1024, 1100, 5000]))
    path = root + "-bad"
    with open(FILES[rng.integers(0, len(FILES))], "rb") as fin:
        content = fin.read(200000)
    if kind == 3:
        content = b""
    elif kind == 4:
        content = content[:int(rng.integers(1, 5000))]
    else:
        content = b"not a number\n" + content
    with open(path, "wb") as fout:
        fout.write(content)
    return path


@REG.family(quick=500, thorough=8000)
def contract(ctx, rng):
    """ mixed calls, failures in between """
    path, _ = random_file(ctx, rng, 0)
    pool = FILES + [path]
    log = []
    for _ in range(int(rng.integers(2, 9))):
        num = int(rng.choice([0, 1, 2, 3, 8, 33]))
        kind = int(rng.integers(0, 6))
        if kind == 0:
            args = [np.asarray(gen.longitudes(rng, (num,))), rng.uniform(-30000, 30000, num)]
            log.append(("mlt", args))
            ctx.note(calls=log[-3:])
            got = invoke(ctx, rng, LIB.c_eval_mlt, 1, args, [])
            want = [eval_mlt(*args)]
        elif kind == 1:
            args = [rng.uniform(-30000, 30000, num)]
            log.append(("subsol", args))
            ctx.note(calls=log[-3:])
            got = invoke(ctx, rng, LIB.c_eval_subsol, 2, args, [])
            want = eval_subsol(*args)
        else:
            base = bool(rng.random() < 0.5)
            rad, lat, lon = places(rng, num)
            args = [years(rng, num), rad, lat, lon]
            func = LIB.c_eval_qdlatlonvb if base else LIB.c_eval_qdlatlon
            if kind == 2 and num:
                args[0] = np.where(np.isnan(args[0]), 2000.0, args[0])
                bad = broken(ctx, rng)
                log.append(("failure", bad, args))
                ctx.note(calls=log[-3:])
                invoke(ctx, rng, func, 7 if base else 2, args, [os.fsencode(bad)], fails=True)
                continue
            file = pool[rng.integers(0, len(pool))]
            log.append(("qd", file, base, args))
            ctx.note(calls=log[-3:])
            got = invoke(ctx, rng, func, 7 if base else 2, args, [os.fsencode(file)])
            want = (eval_qdlatlon_with_base_vectors if base else eval_qdlatlon)(lat, lon, rad, args[0], file)
        for pos, (one, two) in enumerate(zip(got, want)):
            ctx.equal(f"{log[-1][0]}: output {pos}", one, np.asarray(two).reshape(num))
        ctx.key(log[-1][0], got[0][:3])
    os.unlink(path)


@REG.family(quick=20, thorough=60)
def constants(ctx, rng):
    """ version and limits """
    ctx.equal("version", LIB.get_qdipole_version().decode(), eoxmagmod.QDIPOLE_VERSION)
    limit = LIB.get_qdipole_max_fname_lenght()
    ctx.check(limit >= 255, "file name limit", got=limit)
    # names within the limit are accepted, the longer ones rejected
    base = os.path.join(ctx.work_dir, f"{os.getpid()}-{rng.integers(0, 1 << 40)}")
    os.makedirs(base)
    for length in (limit, limit - 1, limit + 1):
        short = os.path.join(base, str(length))
        path = short
        while len(path) < length - 210:
            path = os.path.join(path, "d" * 190)
        path = os.path.join(path, "f" * (length - len(path) - 1))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(FILES[0], path)
        args = [np.array([2000.0]), np.array([6800.0]), np.array([50.0]), np.array([20.0])]
        got = invoke(ctx, rng, LIB.c_eval_qdlatlon, 2, args, [path.encode()], fails=length > limit)
        if length <= limit:
            want = invoke(ctx, rng, LIB.c_eval_qdlatlon, 2, args, [FILES[0].encode()])
            ctx.equal("long name", np.array(got), np.array(want))
    ctx.key(limit)


# ---- Fortran procedures -----------------------------------------------------

def real(*values):
    """ single precision arguments """
    return [ctypes.byref(ctypes.c_float(v)) for v in values]


def load(ctx, path, epoch):
    """ load the coefficients """
    name = ctypes.create_string_buffer(os.fsencode(path), 1023)
    ierr = ctypes.c_int(-1)
    LIB.loadapxsh_(name, *real(epoch), ctypes.byref(ierr), ctypes.c_size_t(1023))
    ctx.check(ierr.value == 0, "status of the loading", got=ierr.value)


def vectors(sizes):
    """ output arguments """
    return [(ctypes.c_float * n)() for n in sizes]


def forward(lat, lon, alt, flag=1):
    """ geodetic to QD """
    out = vectors([1, 1, 2, 2, 1])
    LIB.apxg2q_(*real(lat, lon, alt), ctypes.byref(ctypes.c_int(flag)), *out)
    return [np.array(v, float) for v in out]


def inverse(lat, lon, alt, prec):
    """ QD to geodetic """
    out = vectors([1, 1, 1])
    LIB.apxq2g_(*real(lat, lon, alt, prec), *out)
    return [float(v[0]) for v in out]


def everything(lat, lon, alt, ref, flag=1):
    """ geodetic to QD and apex """
    sizes = [1, 1, 1, 1, 2, 2, 1, 3, 3, 3, 1, 3, 3, 3]
    out = vectors(sizes)
    LIB.apxg2all_(*real(lat, lon, alt, ref), ctypes.byref(ctypes.c_int(flag)), *out)
    return dict(zip("qlat qlon mlat mlon f1 f2 f d1 d2 d3 d e1 e2 e3".split(), [np.array(v, float) for v in out]))


def unit(lat, lon):
    """ direction """
    lat, lon = np.deg2rad(lat), np.deg2rad(lon)
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def separation(lat0, lon0, lat1, lon1):
    """ angle [deg] """
    return float(np.rad2deg(2 * np.arcsin(min(1, 0.5 * np.linalg.norm(unit(lat0, lon0) - unit(lat1, lon1))))))


@REG.family(quick=500, thorough=10000)
def inversion(ctx, rng):
    """ QD coordinates converted back """
    if not hasattr(LIB, "apxq2g_"):
        return
    path, epoch = FILES[rng.integers(0, len(FILES))], float(np.float32(rng.uniform(1996, 2015)))
    load(ctx, path, epoch)
    for _ in range(20):
        qlat = float(np.float32(rng.choice([rng.uniform(-90, 90), rng.uniform(-30, 30), rng.uniform(86, 90) * rng.choice([-1, 1])])))
        qlon = float(np.float32(rng.uniform(-180, 180)))
        alt = float(np.float32(rng.choice([0.0, 110.0, 450.0, rng.uniform(0, 2000)])))
        prec = float(np.float32(rng.choice([1e-1, 1e-2, 1e-3])))
        ctx.note(path=path, epoch=epoch, qlat=qlat, qlon=qlon, alt=alt, prec=prec)
        glat, glon, error = inverse(qlat, qlon, alt, prec)
        back = forward(glat, glon, alt)
        true = separation(qlat, qlon, back[0][0], back[1][0])
        ctx.check(abs(true - error) < 2e-4 + 1e-3 * true, "the reported error is the error", got=error, want=true)
        ctx.check(error <= prec, "the requested precision", got=error, want=prec)
        rough = inverse(qlat, qlon, alt, -1.0)
        ctx.check(rough[2] == MISSING, "no error is estimated", got=rough)
        ctx.check(separation(rough[0], rough[1], glat, glon) < 15, "low precision", got=rough, want=[glat, glon])
        # evaluated again after a different point
        inverse(-qlat, qlon + 10, alt + 5, prec)
        ctx.equal("repeated", np.array(inverse(qlat, qlon, alt, prec)), np.array([glat, glon, error]))
        ctx.key(qlat, qlon, alt, glat)
        ctx.count("inversions")


@REG.family(quick=500, thorough=10000)
def apex(ctx, rng):
    """ modified apex coordinates """
    if not hasattr(LIB, "apxg2all_"):
        return
    path, epoch = FILES[rng.integers(0, len(FILES))], float(np.float32(rng.uniform(1996, 2015)))
    load(ctx, path, epoch)
    for _ in range(20):
        lat, lon = (float(np.float32(v)) for v in (rng.uniform(-89.5, 89.5), rng.uniform(-180, 180)))
        alt, ref = (float(np.float32(v)) for v in (rng.uniform(0, 2000), rng.choice([0.0, 110.0, rng.uniform(0, 1000)])))
        flag = int(rng.random() < 0.8)
        ctx.note(path=path, epoch=epoch, lat=lat, lon=lon, alt=alt, reference=ref, flag=flag)
        got = everything(lat, lon, alt, ref, flag)
        qdip = forward(lat, lon, alt, flag)
        for key, val in zip(("qlat", "qlon", "f1", "f2", "f"), qdip):
            ctx.equal(key, got[key], val)
        ctx.equal("longitude", got["mlon"], got["qlon"])
        ctx.key(got["qlat"], got["qlon"])
        ctx.count("locations")
        ratio = (RE + ref) / (RE + alt)
        sinq, cosq = (f(np.deg2rad(got["qlat"][0])) for f in (np.sin, np.cos))
        cosm = cosq * np.sqrt(ratio)
        if abs(cosm - 1) > 1e-6:
            if cosm > 1:
                ctx.equal("apex below the reference height", got["mlat"], np.array([MISSING]))
            else:
                tol = 1e-5 + 2e-5 / np.sqrt(1 - cosm**2)
                want = np.rad2deg(np.arccos(cosm)) * np.sign(sinq)
                ctx.close("apex latitude", got["mlat"], np.array([want]), rtol=1e-6, atol=tol)
                ctx.count("apex latitudes")
        if not flag:
            ctx.check(all(np.all(got[k] == MISSING) for k in ("d1", "d2", "d3", "d", "e1", "e2", "e3")), "no vectors", got=got)
            continue
        denom = 4 / ratio - 3 * cosq**2
        if denom < 1e-3:
            if denom < -1e-5:
                ctx.check(all(np.all(got[k] == MISSING) for k in ("d1", "d2", "d3", "d", "e1", "e2", "e3")), "no vectors", got=got)
            continue
        # the vectors are mutually reciprocal
        dvec, evec = (np.array([got[k + i] for i in "123"]) for k in "de")
        scale = np.linalg.norm(dvec, axis=1)[None] * np.linalg.norm(evec, axis=1)[:, None]
        ctx.close("reciprocal vectors", evec @ dvec.T, np.eye(3), rtol=0, atol=3e-6 * scale)
        cross = np.cross(dvec[0], dvec[1])
        size = np.linalg.norm(dvec[0]) * np.linalg.norm(dvec[1])
        ctx.close("e3", got["e3"], cross, rtol=0, atol=1e-6 * size)
        ctx.close("D", got["d"], np.array([np.linalg.norm(cross)]), rtol=1e-6, atol=1e-6 * size)
        ctx.close("F", got["f"], np.array([got["f1"][0] * got["f2"][1] - got["f1"][1] * got["f2"][0]]), rtol=0,
                  atol=1e-6 * np.linalg.norm(got["f1"]) * np.linalg.norm(got["f2"]))
        # the vectors are gradients of the coordinates
        step = 25.0
        upper, lower = (forward(lat, lon, alt + s, 0) for s in (step, -step))
        dlon = np.deg2rad((upper[1][0] - lower[1][0] + 180) % 360 - 180) / (2 * step) * (RE + alt)
        dlat = np.deg2rad(upper[0][0] - lower[0][0]) / (2 * step) * (RE + alt)
        if cosq > 0.05:
            ctx.close("d1 up", got["d1"][2:], np.array([ratio**1.5 * cosq * dlon]), rtol=0, atol=2e-3 + 2e-3 * abs(dlon))
            want = -ratio * (2 * sinq * dlat + cosq) / np.sqrt(denom)
            ctx.close("d2 up", got["d2"][2:], np.array([want]), rtol=0, atol=(2e-3 + 2e-3 * abs(dlat)) / np.sqrt(denom))
        # d1 is the scaled horizontal gradient of the longitude
        ctx.close("d1 horizontal", got["d1"][:2], ratio**1.5 * np.array([got["f2"][1], -got["f2"][0]]), rtol=1e-5, atol=1e-6)
        ctx.count("vectors")
