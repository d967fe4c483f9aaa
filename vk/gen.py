"""Workload generators shared by the checks."""
import numpy as np

SHAPES = [(), (1,), (7,), (3, 4), (2, 1, 3), (5, 2, 2), (0,), (3, 0), (1, 1)]


def tail(rng, low, high, big, prob=0.06):
    """ integer from [low, high), occasionally a much larger one up to big """
    if rng.random() < prob and big >= high:
        return int(round(np.exp(rng.uniform(np.log(max(high, 1)), np.log(big)))))
    return int(rng.integers(low, high))


def large_shape(rng):
    """ array shape of a larger batch """
    kind = rng.integers(4)
    num = int(loguniform(rng, 20, 700)) if rng.random() < 0.95 else int(loguniform(rng, 700, 5000))
    if kind < 2:
        return (num,)
    width = int(rng.integers(2, 20))
    if kind == 2:
        return (max(num // width, 1), width)
    return (2, max(num // (2 * width), 1), width)


def deep_shape(rng):
    """ array shape of many dimensions """
    item = [int(v) for v in rng.choice([1, 2, 3], int(rng.integers(4, 7)), p=[0.45, 0.4, 0.15])]
    return tuple(item)


def shape(rng, empty=True, scalar=True, large=0.03):
    """ random array shape """
    if rng.random() < large:
        return large_shape(rng)
    if rng.random() < large:
        return deep_shape(rng)
    while True:
        item = SHAPES[rng.integers(len(SHAPES))]
        if (0 in item and not empty) or (item == () and not scalar):
            continue
        return item


def loguniform(rng, low, high, size=None):
    """ log-uniform """
    return np.exp(rng.uniform(np.log(low), np.log(high), size))


def latitudes(rng, size=None, mode=None):
    """ latitudes: uniform, near and at the poles, near and at the equator """
    mode = rng.integers(0, 8, size) if mode is None else mode
    sign = rng.choice([-1.0, 1.0], size)
    uni = rng.uniform(-90, 90, size)
    pole = sign * (90.0 - 10.0 ** rng.uniform(-15, 0.5, size))
    equator = sign * 10.0 ** rng.uniform(-16, 0.5, size)
    special = rng.choice([90.0, -90.0, 0.0, -0.0, 45.0, -30.0], size)
    return np.select(
        [mode < 4, mode == 4, mode == 5], [uni, pole, equator], default=special)


def longitudes(rng, size=None, wide=True):
    """ longitudes incl. date line, full circle multiples """
    mode = rng.integers(0, 8, size)
    uni = rng.uniform(-180, 180, size)
    sign = rng.choice([-1.0, 1.0], size)
    date = sign * (180.0 - 10.0 ** rng.uniform(-13, 0.5, size))
    special = rng.choice([180.0, -180.0, 0.0, 90.0, -90.0, 360.0 if wide else 0.0, -0.0], size)
    other = rng.uniform(-720, 720, size) if wide else uni
    return np.select([mode < 4, mode == 4, mode == 5], [uni, date, special], default=other)


def radii(rng, size=None, low=6371.2 * 0.6, high=6371.2 * 12):
    """ geocentric radii """
    mode = rng.integers(0, 5, size)
    near = rng.uniform(*((max(low, 6300), min(high, 7500))
                         if low < 7500 and high > 6300 else (low, high)), size)
    log = loguniform(rng, low, high, size)
    special = np.clip(rng.choice([6371.2, 6378.137, 6356.7523142, 6481.2, 6871.2], size), low, high)
    return np.select([mode < 2, mode < 4], [near, log], default=special)


def sph(rng, size=None, low=6371.2 * 0.6, high=6371.2 * 12, wide=True):
    """ spherical coordinates [..., 3] """
    return np.stack([
        np.asarray(latitudes(rng, size)), np.asarray(longitudes(rng, size, wide)),
        np.asarray(radii(rng, size, low, high))], axis=-1)


def spread(rng, size=None, span=4):
    """ signed values of varying magnitudes """
    return rng.choice([-1.0, 1.0], size) * 10.0 ** rng.uniform(-span, span, size)


def relayout(rng, arr, kinds=None):
    """ Same values in another memory layout (kind, array). """
    arr = np.asarray(arr)
    options = ["C", "F", "reversed", "strided", "unaligned", "swapped", "readonly", "moved", "list", "offset"]
    kind = rng.choice(kinds or options)
    if arr.ndim == 0 and kind in ("reversed", "strided", "moved", "F", "offset"):
        kind = "C"
    if kind == "C":
        out = np.array(arr, order="C")
    elif kind == "F":
        out = np.array(arr, order="F")
    elif kind == "reversed":
        sel = tuple(slice(None, None, -1) for _ in arr.shape)
        out = np.array(arr[sel])[sel]
    elif kind == "strided":
        steps = [int(rng.integers(1, 4)) for _ in arr.shape]
        base = np.full([n * s + 1 for n, s in zip(arr.shape, steps)], 7.7e77).astype(arr.dtype) \
            if arr.dtype.kind in "fc" else np.full([n * s + 1 for n, s in zip(arr.shape, steps)], 77, arr.dtype)
        out = base[tuple(slice(0, n * s, s) for n, s in zip(arr.shape, steps))]
        out[...] = arr
    elif kind == "unaligned":
        buf = np.zeros(arr.nbytes + 1, dtype=np.uint8)
        out = buf[1:].view(arr.dtype).reshape(arr.shape) if arr.nbytes else np.array(arr)
        out[...] = arr
    elif kind == "swapped":
        out = arr.astype(arr.dtype.newbyteorder())
    elif kind == "readonly":
        out = np.array(arr)
        out.flags.writeable = False
    elif kind == "moved":
        axes = tuple(rng.permutation(arr.ndim))
        out = np.ascontiguousarray(arr.transpose(axes)).transpose(np.argsort(axes))
    elif kind == "offset":
        base = np.full([n + 2 for n in arr.shape], 5, arr.dtype)
        out = base[tuple(slice(1, n + 1) for n in arr.shape)]
        out[...] = arr
    else:
        out = arr.tolist()
        if arr.size == 0:
            out = np.array(arr)
    return kind, out


def leading(data, shape_, tail=0):
    """ Broadcast data to the shape aligning the leading dimensions (the way
    times and locations are combined), keeping `tail` trailing dimensions. """
    data = np.asarray(data)
    lead = data.ndim - tail
    full = data.reshape(
        data.shape[:lead] + (1,) * (len(shape_) - lead) + data.shape[lead:])
    return np.broadcast_to(full, tuple(shape_) + data.shape[lead:])


def time_loc_shapes(rng, empty=True):
    """ compatible (time shape, location shape, common shape) """
    full = shape(rng, empty=empty)
    if rng.random() < 0.5 or not full:
        return full, full, full
    part = full[:rng.integers(0, len(full) + 1)]
    return (part, full, full) if rng.random() < 0.5 else (full, part, full)
