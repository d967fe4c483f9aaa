"""C05 coordinate conversions follow the WGS84 geometry and invert each other"""
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import geo
from eoxmagmod import convert

REG = Registry(
    rule="a case is one batch of locations converted between two coordinate systems with "
         "different, finite, non-zero expected coordinates, compared with an extended "
         "precision solution of the WGS84 geometry",
    assumptions=[
        "numpy longdouble has more precision than double",
        "locations inside of the evolute of the WGS84 meridian (closer than 43 km to the "
        "Earth's centre) have no unique geodetic coordinates and are not asked for",
    ],
)
GEOD, SPH, CART = 0, 1, 2
RMIN = 43.5


def _cloud(rng, size):
    """ spherical coordinates from near the centre to far space """
    kind = rng.integers(0, 7)
    low, high = [(RMIN, 300), (300, 6300), (6300, 7500), (6000, 1e5), (1e5, 1e7), (RMIN, 1e6), (1e7, 1e12)][kind]
    coords = gen.sph(rng, size, low=low, high=high)
    if rng.random() < 0.3:
        # latitudes and longitudes of a regular grid including the exact limits
        coords[..., 0] = rng.choice(np.arange(-90, 91, 15.0), size)
        coords[..., 1] = rng.choice(np.arange(-180, 181, 15.0), size)
    return coords


def _points(rng, size, ctype):
    """ locations in the coordinate system """
    coords = _cloud(rng, size)
    if ctype == GEOD:
        coords[..., 2] = np.maximum(coords[..., 2] - 6371.2, -6300.0)
        return coords
    if ctype == CART:
        cart = np.asarray(geo.to_cart(coords, SPH), float)
        pick = rng.integers(0, 8, size)
        cart[..., 0] = np.where(pick == 6, 0.0, cart[..., 0])
        cart[..., 1] = np.where((pick == 7) | (pick == 6), rng.choice([0.0, -0.0], size), cart[..., 1])
        small = np.linalg.norm(cart, axis=-1) < RMIN
        cart[..., 2] = np.where(small, 6400.0, cart[..., 2])
        return cart
    return coords


def compare(ctx, name, got, cart, ctype, lon=None):
    """ compare coordinates with the expected Cartesian location """
    got = np.asarray(got)
    radius = np.asarray(np.sqrt((cart * cart).sum(-1)), float)
    atol = 1e-9 + 2e-14 * radius       # km, 1 micrometre at the surface
    if ctype == CART:
        for i in range(3):
            ctx.close(f"{name}[{i}]", got[..., i], cart[..., i], rtol=0, atol=atol)
        return
    want = geo.from_cart(cart, ctype)
    dist = np.asarray(np.hypot(cart[..., 0], cart[..., 1]), float)
    lat = np.asarray(geo.DEG * np.abs(got[..., 0] - want[..., 0])) * radius
    ctx.close(name + ".lat", lat.astype(float), np.zeros(lat.shape), rtol=0, atol=atol)
    ctx.close(name + ".radial", got[..., 2], want[..., 2], rtol=0, atol=10 * atol)
    if lon is not None:
        # longitude passed through between the spherical-like systems
        ctx.close(name + ".lon", got[..., 1], lon, rtol=1e-15 * 4, atol=1e-300)
    else:
        off = np.asarray(geo.DEG * np.abs(geo.angdiff(got[..., 1], want[..., 1]))) * dist
        ctx.close(name + ".lon", off.astype(float), np.zeros(off.shape), rtol=0, atol=atol)
        ctx.check(np.all(np.abs(got[..., 1]) <= 180), name + ": longitude out of range", got=got)
    ctx.check(np.all(np.abs(got[..., 0]) <= 90), name + ": latitude out of range", got=got)
    ctx.key(got)


@REG.family(quick=1500, thorough=20000)
def reference(ctx, rng):
    """ all pairs of coordinate systems """
    cin, cout = [int(v) for v in rng.integers(0, 3, 2)]
    size = (gen.tail(rng, 1, 60, 600),) if rng.random() < 0.8 else gen.shape(rng, empty=False)
    coords = _points(rng, size, cin)
    ctx.note(coord_in=cin, coord_out=cout, coords=coords)
    got = convert(coords, cin, cout)
    ctx.count(f"pair {cin}->{cout}", max(1, int(np.prod(size))))
    if cin == cout:
        ctx.equal("identity", got, coords)
        return
    cart = geo.to_cart(coords, cin)
    compare(ctx, f"convert {cin}->{cout}", got, cart, cout,
            lon=coords[..., 1] if cin != CART and cout != CART else None)
    # the sign of the latitude follows the hemisphere
    if cout != CART:
        south = np.asarray(cart[..., 2] < -1e-6)
        north = np.asarray(cart[..., 2] > 1e-6)
        ctx.check(np.all(got[..., 0][south] < 0) and np.all(got[..., 0][north] > 0),
                  "latitude in the wrong hemisphere", got=got)


@REG.family(quick=500, thorough=6000)
def roundtrip(ctx, rng):
    """ converting through a chain of coordinate systems ends at the same point """
    start = int(rng.integers(0, 3))
    size = (gen.tail(rng, 1, 40, 600),)
    coords = _points(rng, size, start)
    chain = [int(v) for v in rng.integers(0, 3, rng.integers(1, 6))] + [start]
    ctx.note(coords=coords, start=start, chain=chain)
    cart = geo.to_cart(coords, start)
    cur, now = coords, start
    for nxt in chain:
        cur = convert(cur, now, nxt)
        now = nxt
    final = geo.to_cart(cur, start)
    dist = np.asarray(np.sqrt(((final - cart) ** 2).sum(-1)), float)
    radius = np.asarray(np.sqrt((cart * cart).sum(-1)), float)
    ctx.close("displacement", dist, np.zeros(dist.shape), rtol=0, atol=1e-8 + 1e-12 * radius)
    ctx.key(coords, tuple(chain))


@REG.family(quick=300, thorough=3000)
def continuity(ctx, rng):
    """ the geodetic coordinates move as much as the point does """
    cin = int(rng.integers(1, 3))
    coords = _points(rng, (20,), cin)
    cart = np.asarray(geo.to_cart(coords, cin), float)
    radius = np.linalg.norm(cart, axis=-1)
    step = rng.normal(size=cart.shape)
    step *= (radius * 1e-7 / np.linalg.norm(step, axis=-1))[:, None]
    first = convert(cart, CART, GEOD)
    second = convert(cart + step, CART, GEOD)
    ctx.note(cart=cart, step=step)
    dist = np.linalg.norm(step, axis=-1)
    # the height is a distance function: 1-Lipschitz
    ctx.check(np.all(np.abs(first[:, 2] - second[:, 2]) <= dist * (1 + 1e-6) + 1e-8 + 1e-13 * radius),
              "the height changes more than the distance", first=first, second=second)
    ctx.key(first)
