"""C06 vector rotations are isometric and agree with the coordinate conversions"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import geo
from eoxmagmod import convert, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph

REG = Registry(
    rule="a case is one batch of non-zero vectors rotated between two local frames and compared "
         "with the frames' unit vectors in extended precision",
    assumptions=["numpy longdouble has more precision than double"],
)
EPS = 4e-15


def _vectors(rng, size):
    kind = rng.integers(0, 4)
    if kind == 0:
        vec = rng.normal(size=size + (3,))
    elif kind == 1:
        vec = gen.spread(rng, size + (3,), span=8)
    elif kind == 2:
        vec = np.eye(3)[rng.integers(0, 3, size)] * gen.spread(rng, size)[..., None]
    else:
        vec = rng.normal(size=size + (3,)) * 5e4
    return vec


def _angles(rng, size):
    lat, lon = gen.latitudes(rng, size), gen.longitudes(rng, size)
    if rng.random() < 0.2:
        lat = rng.uniform(-1000, 1000, size)   # any angle defines a frame
    return np.asarray(lat, float), np.asarray(lon, float)


def _size(rng):
    return (int(rng.integers(1, 50)),) if rng.random() < 0.7 else gen.shape(rng, empty=False)


def _isometry(ctx, name, before, after):
    before, after = before.reshape(-1, 3), after.reshape(-1, 3)
    norm = np.linalg.norm(before, axis=1)
    ctx.close(name + ": length", np.linalg.norm(after, axis=1), norm, rtol=EPS, atol=1e-300)


@REG.family(quick=4000, thorough=60000)
def spherical_cartesian(ctx, rng):
    """ NEU <-> XYZ """
    size = _size(rng)
    vec = _vectors(rng, size)
    lat, lon = _angles(rng, size)
    ctx.note(vec=vec, lat=lat, lon=lon)
    base = geo.basis(lat, lon)
    norm = np.linalg.norm(vec, axis=-1)[..., None]
    # the angle itself is rounded when converted to radians
    atol = norm * (EPS + 2e-16 * np.maximum(np.abs(lat), np.abs(lon))[..., None] / 57)
    cart = vrot_sph2cart(vec, lat, lon)
    want = np.einsum("...i,...ij->...j", vec.astype(geo.LD), base)
    ctx.close("sph2cart", cart, want, rtol=0, atol=atol)
    _isometry(ctx, "sph2cart", vec, cart)
    local = vrot_cart2sph(vec, lat, lon)
    want = np.einsum("...j,...ij->...i", vec.astype(geo.LD), base)
    ctx.close("cart2sph", local, want, rtol=0, atol=atol)
    _isometry(ctx, "cart2sph", vec, local)
    ctx.close("inverse 1", vrot_cart2sph(cart, lat, lon), vec, rtol=0, atol=norm * EPS)
    ctx.close("inverse 2", vrot_sph2cart(local, lat, lon), vec, rtol=0, atol=norm * EPS)


@REG.family(quick=3000, thorough=50000)
def spherical_geodetic(ctx, rng):
    """ spherical NEU <-> geodetic NEU """
    size = _size(rng)
    vec = _vectors(rng, size)
    norm = np.linalg.norm(vec, axis=-1)[..., None]
    sph = gen.sph(rng, size, low=6000)
    geod = convert(sph, 1, 0)
    dlat = np.asarray(geod[..., 0] - sph[..., 0])
    if rng.random() < 0.2:
        dlat = rng.uniform(-200, 200, size)
        geod = sph.copy()
        geod[..., 0] = sph[..., 0] + dlat
        scale = 1e-13
    else:
        scale = 2e-14
    ctx.note(vec=vec, sph=sph, dlat=dlat)
    out = vrot_sph2geod(vec, dlat)
    cart = np.einsum("...i,...ij->...j", vec.astype(geo.LD), geo.frame(sph, 1))
    want = np.einsum("...j,...ij->...i", cart, geo.frame(geod, 0))
    ctx.close("sph2geod", out, want, rtol=0, atol=norm * scale)
    ctx.close("east unchanged", out[..., 1], vec[..., 1], rtol=0)
    _isometry(ctx, "sph2geod", vec, out)
    ctx.close("inverse", vrot_sph2geod(out, -dlat), vec, rtol=0, atol=norm * EPS)
    ctx.close("as Cartesian", vrot_sph2cart(out, geod[..., 0], geod[..., 1]),
              vrot_sph2cart(vec, sph[..., 0], sph[..., 1]), rtol=0, atol=norm * 1e-13)


@REG.family(quick=600, thorough=8000)
def conversion_directions(ctx, rng):
    """ the frames are those of the coordinates: moving in a coordinate moves
    the converted point in the corresponding direction """
    ctype = int(rng.integers(0, 2))
    size = (8,)
    coords = gen.sph(rng, size, low=6200, high=5e4)
    coords[:, 0] = rng.uniform(-89.5, 89.5, 8)
    if ctype == 0:
        coords[:, 2] -= 6371.2
    ctx.note(coords=coords, ctype=ctype)
    for axis in range(3):
        step = [1e-4, 1e-4, 1e-2][axis]
        high, low = coords.copy(), coords.copy()
        high[:, axis] += step
        low[:, axis] -= step
        move = convert(high, ctype, 2) - convert(low, ctype, 2)
        length = np.linalg.norm(move, axis=-1)
        # in the local frame the movement has only the one component
        local = vrot_cart2sph(move, coords[:, 0], coords[:, 1]) / length[:, None]
        want = np.zeros((8, 3))
        want[:, axis] = 1.0
        ctx.close(f"direction {axis}", local, want, rtol=0, atol=1e-5)
        unit = np.zeros((8, 3))
        unit[:, axis] = 1.0
        ctx.close(f"unit {axis}", vrot_sph2cart(unit, coords[:, 0], coords[:, 1]),
                  move / length[:, None], rtol=0, atol=1e-5)


@REG.family(quick=500, thorough=6000)
def angles_preserved(ctx, rng):
    """ scalar and vector products commute with the rotations """
    lat, lon = _angles(rng, ())
    v1, v2 = rng.normal(size=(2, 3))
    ctx.note(lat=lat, lon=lon, v1=v1, v2=v2)
    for name, rot in (
        ("sph2cart", lambda v: vrot_sph2cart(v, lat, lon)),
        ("cart2sph", lambda v: vrot_cart2sph(v, lat, lon)),
        ("sph2geod", lambda v: vrot_sph2geod(v, lat)),
    ):
        r1, r2 = rot(v1), rot(v2)
        ctx.close(name + " dot", np.dot(r1, r2), np.dot(v1, v2), rtol=0, atol=1e-14 * 5)
        # the North-East-Up frame is left handed
        sign = 1 if name == "sph2geod" else -1
        ctx.close(name + " cross", np.cross(r1, r2), sign * rot(np.cross(v1, v2)), rtol=0, atol=5e-14)
