"""C27 vector norm, inclination and declination helpers are consistent"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import geo
from eoxmagmod import vnorm, vincdecnorm, vrotate, convert

REG = Registry(
    rule="a case is one batch of vectors processed by the helpers and compared with angles, "
         "lengths and frame directions in extended precision",
    assumptions=["numpy longdouble has more precision than double"],
)


def _vectors(rng, size):
    kind = rng.integers(0, 5)
    vec = rng.normal(size=size + (3,)) * 10.0 ** rng.uniform(-6, 6)
    if kind == 1:
        vec = gen.spread(rng, size + (3,), span=10)
    elif kind == 2:
        vec = rng.choice([0.0, -0.0, 1.0, -1.0, 3e4], size + (3,))
    elif kind == 3:   # (almost) vertical
        vec[..., :2] *= rng.choice([0.0, 1e-8, 1e-13, -0.0])
    elif kind == 4:   # (almost) horizontal
        vec[..., 2] *= rng.choice([0.0, 1e-8, 1e-13])
    return vec


def _size(rng):
    if rng.random() < 0.01:
        return (int(gen.loguniform(rng, 400, 20000)),)
    return (int(rng.integers(1, 50)),) if rng.random() < 0.7 else gen.shape(rng)


def integers(rng, shape):
    """ integer vectors up to the limits of the type """
    dtype = np.dtype(str(rng.choice(["i1", "i2", "u1", "u2", "i4", "u4", "i8", ">i4"])))
    info = np.iinfo(dtype)
    top = min(int(info.max), 2**53, 10 ** int(rng.integers(1, 17)))
    return rng.integers(max(int(info.min), -top), top, shape, dtype="i8", endpoint=True).astype(dtype)


@REG.family(quick=4000, thorough=60000)
def norm(ctx, rng):
    """ vnorm """
    size = _size(rng)
    vec = _vectors(rng, size)
    if rng.random() < 0.2:
        vec = integers(rng, vec.shape)
        ctx.count("integers")
    if rng.random() < 0.2:
        vec = gen.relayout(rng, vec, ["F", "reversed", "strided", "list"])[1]
        if np.shape(vec)[-1:] != (3,):
            vec = np.zeros(size + (3,))
    elif rng.random() < 0.15 and isinstance(vec, np.ndarray) and vec.dtype.kind == "f":
        # vectors of very different lengths in one array
        vec = vec * 10.0**rng.uniform(-130, 130, vec.shape[:-1] + (1,))
        ctx.count("lengths apart")
    ctx.note(vec=np.asarray(vec))
    arr = np.asarray(vec, geo.LD)
    ctx.close("vnorm", vnorm(vec), np.sqrt((arr * arr).sum(-1)), rtol=4e-16, atol=1e-300)


@REG.family(quick=4000, thorough=60000)
def inclination(ctx, rng):
    """ vincdecnorm """
    size = _size(rng)
    vec = _vectors(rng, size)
    if rng.random() < 0.2:
        vec = integers(rng, vec.shape)
    ctx.note(vec=vec)
    got = vincdecnorm(vec)
    ctx.check(isinstance(got, tuple) and len(got) == 3, "three results expected")
    inc, dec, nrm = got
    north, east, upw = (np.asarray(vec[..., i], geo.LD) for i in range(3))
    horizontal = np.hypot(north, east)
    ctx.close("inclination", inc, np.arctan2(-upw, horizontal) / geo.DEG, rtol=1e-15, atol=3e-14)
    want = np.arctan2(east, north) / geo.DEG
    off = geo.angdiff(dec, want)
    ctx.close("declination", np.asarray(off, float), np.zeros(size), rtol=0, atol=1e-13)
    ctx.close("norm", nrm, np.sqrt(north**2 + east**2 + upw**2), rtol=5e-16, atol=1e-300)
    ctx.check(np.all(np.abs(inc) <= 90) and np.all(np.abs(dec) <= 180), "angle out of range", got=got)
    ctx.check(np.isfinite(np.asarray(inc)).all() and np.isfinite(np.asarray(dec)).all(),
              "not finite", got=got)
    ctx.key(np.asarray(inc))


@REG.family(quick=3000, thorough=40000)
def rotation(ctx, rng):
    """ vrotate between any two named coordinate systems """
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    size = (gen.tail(rng, 1, 30, 400),) if rng.random() < 0.7 else gen.shape(rng)
    if rng.random() < 0.005:
        size = (int(gen.loguniform(rng, 400, 5000)),)
    vec = rng.normal(size=size + (3,)) * 10.0 ** rng.uniform(-3, 6)
    sph = gen.sph(rng, size, low=6000, high=1e5)
    coord_in, coord_out = convert(sph, 1, cin), convert(sph, 1, cout)
    if cin != cout and rng.random() < 0.04:
        # whole degrees of narrow or unsigned integer types, the latitudes differ by up to one degree
        coord_in = np.stack([rng.integers(2, 88, size), rng.integers(0, 120, size), rng.integers(0, 120, size)], -1)
        coord_out = coord_in + np.array([1, 0, 0]) * rng.integers(-1, 2, size + (1,))
        coord_in, coord_out = (v.astype(rng.choice(["u1", "u2", "i1", "i2", "u4"])) for v in (coord_in, coord_out))
        ctx.count("integer coordinates")
    ctx.note(vec=vec, cin=cin, cout=cout, sph=sph, coord_in=coord_in, coord_out=coord_out)
    # the horizontal direction at a pole is given by the longitude of the
    # spherical coordinates, it cannot be recovered from the Cartesian ones
    frame_in, frame_out = geo.frame(coord_in, cin), geo.frame(coord_out, cout)
    cart = np.einsum("...i,...ij->...j", vec.astype(geo.LD), frame_in)
    want = np.einsum("...j,...ij->...i", cart, frame_out)
    nrm = np.linalg.norm(vec, axis=-1)[..., None]
    drop_in = drop_out = False
    if cin == 2:
        drop_in = rng.random() < 0.3
    if cin == 0 and cout == 2 or cin == 1 and cout == 2:
        drop_out = rng.random() < 0.3
    got = vrotate(vec, None if drop_in else coord_in, None if drop_out else coord_out, cin, cout)
    ctx.close(f"vrotate {cin}->{cout}", got, want, rtol=0, atol=nrm * 3e-14)
    ctx.count(f"pair {cin}->{cout}")
    if cin != cout and rng.random() < 0.3 and size:
        lists = vrotate(vec.tolist(), coord_in.tolist(), coord_out.tolist(), cin, cout) \
            if vec.size else got
        ctx.equal("lists", lists, got)
