"""Table of the compiled functions: valid random calls with the description of
their argument structure, shared by the C01, C02, C03, C04 and C28 checks."""
import numpy as np

from eoxmagmod import _pymm, _pyqd, _pysunpos, _pytimeconv
from eoxmagmod.data import APEX_LATEST
from vk import gen

COORDS = (_pymm.GEODETIC_ABOVE_WGS84, _pymm.GEOCENTRIC_SPHERICAL, _pymm.GEOCENTRIC_CARTESIAN)
MODES = (_pymm.POTENTIAL, _pymm.GRADIENT, _pymm.POTENTIAL_AND_GRADIENT)
SIDES = (_pymm.BISECT_SIDE_LEFT, _pymm.BISECT_SIDE_RIGHT)
KINDS = (_pymm.INTERP_C0, _pymm.INTERP_C1, _pymm.INTERP_C1D1)

# how the leading dimensions of the vectorised arguments are combined:
PREFIX = "prefix"       # leading dimensions of the common shape
EQUAL = "equal"         # identical shapes
SCALAR = "scalar"       # identical shapes or scalars
VECTOR = "vector"       # as SCALAR, the first argument always has the full shape


class Call:
    """ One call of a compiled function. """

    def __init__(self, name, func, args, tails, rule, out_tails, shape, required=None,
                 enums=None, degrees=(), structural=(), max_lead=31):
        self.name = name
        self.func = func
        self.args = args                # ordered {keyword: value}
        self.tails = tails              # {keyword: number of trailing dimensions}
        self.rule = rule
        self.out_tails = out_tails      # trailing dimensions of the outputs
        self.shape = shape              # common leading shape
        self.required = len(tails) if required is None else required
        self.enums = enums or {}        # {keyword: allowed values}
        self.degrees = degrees          # keywords which cannot be negative
        self.structural = structural    # keywords of the other arrays
        self.max_lead = max_lead

    def __call__(self, **changes):
        args = {**self.args, **changes}
        return self.func(*args.values())

    def outputs(self, result):
        """ result as a tuple of arrays """
        return result if isinstance(result, tuple) else (result,)

    def broadcasted(self, rng):
        """ The same call with some of the arguments reduced to lower
        dimensional arrays; returns the arguments and their indexing. """
        args = dict(self.args)
        lead = {}
        ndim = len(self.shape)
        names = list(self.tails)
        full = names[rng.integers(len(names))] if self.rule != VECTOR else names[0]
        for name in names:
            num = ndim
            if name != full and self.rule != EQUAL and rng.random() < 0.6:
                num = int(rng.integers(0, ndim + 1)) if self.rule == PREFIX else 0
            if num < ndim:
                value = np.asarray(args[name])
                if 0 in self.shape[num:]:
                    num = ndim
                else:
                    value = value[(slice(None),) * num + (0,) * (ndim - num)]
                    args[name] = np.array(value)
            lead[name] = num
        return args, lead

    def item(self, args, lead, index):
        """ arguments of the single-point call """
        out = dict(args)
        for name, num in lead.items():
            out[name] = np.array(np.asarray(args[name])[index[:num]])
        return out


def _pos(rng, shape, ctype):
    """ locations in the given coordinates """
    sph = gen.sph(rng, shape, low=6371.2 * 0.9, high=6371.2 * 3)
    if ctype == _pymm.GEOCENTRIC_SPHERICAL:
        return sph
    if ctype == _pymm.GEODETIC_ABOVE_WGS84:
        sph[..., 2] = rng.uniform(-300, 4000, shape)
        return sph
    lat, lon, rad = np.radians(sph[..., 0]), np.radians(sph[..., 1]), sph[..., 2]
    return np.stack([
        rad * np.cos(lat) * np.cos(lon), rad * np.cos(lat) * np.sin(lon), rad * np.sin(lat)
    ], axis=-1)


def _repeat(rng, arr, tail):
    """ make some of the elements repeat (exercising the last value caches) """
    arr = np.array(arr)
    lead = arr.shape[:arr.ndim - tail]
    num = int(np.prod(lead))
    if num > 1 and rng.random() < 0.5:
        flat = arr.reshape((num,) + arr.shape[arr.ndim - tail:])
        pick = rng.integers(0, num, num)
        pick = np.where(rng.random(num) < 0.4, np.maximum(np.arange(num) - 1, 0), pick)
        if tail and rng.random() < 0.5:
            # repeat single components only
            comp = rng.integers(flat.shape[-1])
            flat[..., comp] = flat[pick][..., comp]
        else:
            flat = flat[pick]
        arr = flat.reshape(arr.shape)
    return arr


def _size(degree):
    return (degree + 1) * (degree + 2) // 2


def _scale(rng):
    return [1.0, -2.5, [1.0, 2.0, -0.5], np.array([0.1, -1.0, 3.0])][rng.integers(4)]


def _terms(rng, degree, count=None):
    """ distinct (n, m) terms """
    full = [(n, m) for n in range(0, degree + 1) for m in range(-n, n + 1)]
    rng.shuffle(full)
    num = count or int(rng.integers(1, len(full) + 1))
    return np.array(full[:num], dtype="i4").reshape(-1, 2)


def _bisect(rng, shape):
    nodes = np.sort(rng.normal(0, 10, rng.integers(1, 9)))
    x = rng.choice(np.concatenate([nodes, rng.normal(0, 12, 5)]), shape)
    return Call("bisect", _pymm.bisect, {"v": nodes, "x": x, "side": int(rng.choice(SIDES))},
                {"x": 0}, PREFIX, (0,), shape, required=2, enums={"side": SIDES}, structural=("v",))


def _convert(rng, shape):
    ct_in, ct_out = (int(v) for v in rng.choice(COORDS, 2))
    return Call("convert", _pymm.convert, {
        "arr_in": _pos(rng, shape, ct_in), "coord_type_in": ct_in, "coord_type_out": ct_out},
        {"arr_in": 1}, PREFIX, (1,), shape,
        enums={"coord_type_in": COORDS, "coord_type_out": COORDS})


def _fourier2d(rng, shape):
    size = rng.integers(1, 6, 2)
    coeff = rng.normal(0, 10, (*rng.integers(1, 4, rng.integers(0, 3)), *size, 2))
    return Call("fourier2d", _pymm.fourier2d, {
        "time1": _repeat(rng, rng.uniform(-1, 1, shape), 0),
        "time2": _repeat(rng, rng.uniform(0, 24, shape), 0), "coeff": coeff,
        "min_degree1": int(rng.integers(-5, 3)), "min_degree2": int(rng.integers(-5, 3)),
        "scale1": float(rng.uniform(0.1, 7)), "scale2": 0.2617993877991494,
    }, {"time1": 0, "time2": 0}, EQUAL, (coeff.ndim - 3,), shape, required=3, structural=("coeff",))


def _interp(rng, shape):
    num = gen.tail(rng, 2, 8, 60)
    times = np.sort(rng.uniform(-100, 100, num))
    coeff = rng.normal(0, 10, (*rng.integers(1, 4, rng.integers(0, 3)), num))
    time = np.where(rng.random(shape) < 0.3, rng.choice(times, shape), rng.uniform(-120, 120, shape))
    return Call("interp", _pymm.interp, {
        "time": time, "time0": times, "coeff0": coeff, "kind": int(rng.choice(KINDS)),
        "extrapolate": bool(rng.integers(2))}, {"time": 0}, PREFIX, (coeff.ndim - 1,), shape,
        required=3, enums={"kind": KINDS}, structural=("time0", "coeff0"))


def _legendre(rng, shape):
    return Call("legendre", _pymm.legendre, {
        "latitude": gen.latitudes(rng, shape), "degree": gen.tail(rng, 0, 12, 90)},
        {"latitude": 0}, PREFIX, (1, 1), shape, required=2, degrees=("degree",))


def _loncossin(rng, shape):
    return Call("loncossin", _pymm.loncossin, {
        "longitude": gen.longitudes(rng, shape), "degree": gen.tail(rng, 0, 12, 90),
        "fast_alg": bool(rng.integers(2))},
        {"longitude": 0}, PREFIX, (2,), shape, required=2, degrees=("degree",))


def _relradpow(rng, shape):
    return Call("relradpow", _pymm.relradpow, {
        "radius": gen.radii(rng, shape), "degree": gen.tail(rng, 0, 12, 90),
        "reference_radius": float(rng.choice([6371.2, 6500.0, 1.0])),
        "is_internal": bool(rng.integers(2))},
        {"radius": 0}, PREFIX, (1,), shape, required=2, degrees=("degree",))


def _mode_tails(mode):
    return {1: (0,), 2: (1,), 3: (0, 1)}[mode]


def _sheval(rng, shape):
    ct_in, ct_out = (int(v) for v in rng.choice(COORDS, 2))
    degree = gen.tail(rng, 0, 9, 40)
    mode = int(rng.choice(MODES))
    return Call("sheval", _pymm.sheval, {
        "arr_x": _repeat(rng, _pos(rng, shape, ct_in), 1),
        "coef": rng.normal(0, 100, (*shape, _size(degree), 2)),
        "coord_type_in": ct_in, "coord_type_out": ct_out, "mode": mode,
        "is_internal": bool(rng.integers(2)), "degree": int(rng.integers(-1, degree + 2)),
        "scale_potential": float(rng.choice([1.0, 0.5, -2.0])), "scale_gradient": _scale(rng),
    }, {"arr_x": 1, "coef": 2}, PREFIX, _mode_tails(mode), shape,
        enums={"coord_type_in": COORDS, "coord_type_out": COORDS, "mode": MODES})


def _sheval2dfs(rng, shape):
    ct_in, ct_out = (int(v) for v in rng.choice(COORDS, 2))
    mode = int(rng.choice(MODES))
    terms = _terms(rng, int(rng.integers(0, 5)))
    size = rng.integers(1, 5, 2)
    coefset = (
        rng.normal(0, 10, (len(terms), *size, 2)), terms, int(rng.integers(-4, 2)),
        int(rng.integers(-4, 2)), float(rng.uniform(0.1, 7)), 0.2617993877991494)
    return Call("sheval2dfs", _pymm.sheval2dfs, {
        "arr_t1": _repeat(rng, rng.uniform(-1, 1, shape), 0),
        "arr_t2": _repeat(rng, rng.uniform(0, 24, shape), 0),
        "arr_x": _repeat(rng, _pos(rng, shape, ct_in), 1), "coef_set": coefset,
        "coord_type_in": ct_in, "coord_type_out": ct_out, "mode": mode,
        "is_internal": bool(rng.integers(2)), "scale_potential": float(rng.choice([1.0, 0.5, -2.0])),
        "scale_gradient": _scale(rng),
    }, {"arr_t1": 0, "arr_t2": 0, "arr_x": 1}, PREFIX, _mode_tails(mode), shape, required=4,
        enums={"coord_type_in": COORDS, "coord_type_out": COORDS, "mode": MODES})


def _shevaltemp(rng, shape):
    ct_in, ct_out = (int(v) for v in rng.choice(COORDS, 2))
    mode = int(rng.choice(MODES))
    sets = []
    terms = _terms(rng, int(rng.integers(0, 6)))
    parts = np.array_split(terms, min(len(terms), int(rng.integers(1, 4))))
    for part in parts:
        num = gen.tail(rng, 2, 7, 60)
        sets.append((
            np.sort(rng.uniform(-100, 100, num)), rng.normal(0, 100, (len(part), num)),
            np.ascontiguousarray(part), int(rng.integers(1, 3))))
    return Call("shevaltemp", _pymm.shevaltemp, {
        "arr_t": _repeat(rng, rng.uniform(-105, 105, shape), 0),
        "arr_x": _repeat(rng, _pos(rng, shape, ct_in), 1), "coef_set_list": sets,
        "coord_type_in": ct_in, "coord_type_out": ct_out, "mode": mode,
        "is_internal": bool(rng.integers(2)), "scale_potential": float(rng.choice([1.0, 0.5, -2.0])),
        "scale_gradient": _scale(rng),
    }, {"arr_t": 0, "arr_x": 1}, PREFIX, _mode_tails(mode), shape, required=3,
        enums={"coord_type_in": COORDS, "coord_type_out": COORDS, "mode": MODES})


def _series(rng, shape, degree, internal):
    lat = gen.latitudes(rng, shape)
    rad = gen.radii(rng, shape, 6371.2 * 0.9, 6371.2 * 3)
    leg_p, leg_dp = _pymm.legendre(lat, degree)
    return lat, rad, leg_p, leg_dp, \
        _pymm.relradpow(rad, degree, 6371.2, internal), \
        _pymm.loncossin(gen.longitudes(rng, shape), degree)


def _spharpot(rng, shape):
    degree = gen.tail(rng, 0, 8, 40)
    _, rad, leg_p, _, rrp, lcs = _series(rng, shape, degree, True)
    return Call("spharpot", _pymm.spharpot, {
        "radius": rad, "coef": rng.normal(0, 100, (*shape, _size(degree), 2)), "leg_p": leg_p,
        "rrp": rrp, "lcs": lcs, "degree": int(rng.integers(-1, degree + 2)),
    }, {"radius": 0, "coef": 2, "leg_p": 1, "rrp": 1, "lcs": 2}, PREFIX, (0,), shape)


def _sphargrd(rng, shape):
    degree = gen.tail(rng, 0, 8, 40)
    internal = bool(rng.integers(2))
    lat, _, leg_p, leg_dp, rrp, lcs = _series(rng, shape, degree, internal)
    return Call("sphargrd", _pymm.sphargrd, {
        "latitude": lat, "coef": rng.normal(0, 100, (*shape, _size(degree), 2)), "leg_p": leg_p,
        "leg_dp": leg_dp, "rrp": rrp, "lcs": lcs, "is_internal": internal,
        "degree": int(rng.integers(-1, degree + 2)),
    }, {"latitude": 0, "coef": 2, "leg_p": 1, "leg_dp": 1, "rrp": 1, "lcs": 2}, PREFIX, (1,), shape)


def _vrot(name):
    def build(rng, shape):
        args = {"arr_in": rng.normal(0, 1000, (*shape, 3))}
        tails = {"arr_in": 1}
        if name == "vrot_sph2geod":
            args["arr_dlat"] = rng.uniform(-1, 1, shape)
            tails["arr_dlat"] = 0
        else:
            args["arr_lat"] = gen.latitudes(rng, shape)
            args["arr_lon"] = gen.longitudes(rng, shape)
            tails.update(arr_lat=0, arr_lon=0)
        return Call(name, getattr(_pymm, name), args, tails, VECTOR, (1,), shape)
    return build


def _flat(shape):
    """ at most one-dimensional shape """
    return shape if len(shape) < 2 else (int(np.prod(shape)),)


def _eval_mlt(rng, shape):
    shape = _flat(shape)
    return Call("eval_mlt", _pyqd.eval_mlt, {
        "qdlon": rng.uniform(-360, 360, shape), "time": _repeat(rng, rng.uniform(-36000, 36000, shape), 0),
    }, {"qdlon": 0, "time": 0}, EQUAL, (0,), shape, max_lead=1)


def _eval_subsol(rng, shape):
    shape = _flat(shape)
    return Call("eval_subsol", _pyqd.eval_subsol, {"time": rng.uniform(-36000, 36000, shape)},
                {"time": 0}, EQUAL, (0, 0), shape, max_lead=1)


def _eval_qdlatlon(rng, shape):
    shape = _flat(shape)
    base = bool(rng.integers(2))
    years = rng.choice(np.concatenate([[1990.0, 2000.0, 2015.0, 2019.5], np.round(rng.uniform(1900, 2030, 3), 1)]),
                       shape)
    return Call("eval_qdlatlon", _pyqd.eval_qdlatlon, {
        "gclat": rng.uniform(-89.9, 89.9, shape), "gclon": rng.uniform(-180, 180, shape),
        "gcrad": _repeat(rng, rng.uniform(6371.2, 7400, shape), 0), "time": np.array(years),
        "fname": str(APEX_LATEST), "eval_base": base,
    }, {"gclat": 0, "gclon": 0, "gcrad": 0, "time": 0}, EQUAL, (0,) * (7 if base else 2), shape,
        required=5, max_lead=1)


def _sunpos(name):
    def build(rng, shape):
        args = {
            "time_mjd2k": rng.uniform(-36000, 36000, shape), "lat": gen.latitudes(rng, shape),
            "lon": gen.longitudes(rng, shape), "rad": rng.choice([0.0, 6371.2, 6900.0], shape),
            "dtt": rng.uniform(-60, 100, shape)}
        if name == "sunpos_original":
            args["pres"] = rng.uniform(0, 2, shape)
            args["temp"] = rng.uniform(-50, 50, shape)
        args = {key: np.array(val) for key, val in args.items()}
        return Call(name, getattr(_pysunpos, name), args, dict.fromkeys(args, 0), SCALAR, (1,), shape,
                    max_lead=14)
    return build


def _timeconv(name):
    def build(rng, shape):
        value = rng.uniform(1800, 2200, shape) if name.startswith("decimal") else rng.uniform(-73000, 73000, shape)
        return Call(name, getattr(_pytimeconv, name), {
            "time_mjd2k": np.array(value)}, {"time_mjd2k": 0}, PREFIX,
            (0,), shape, max_lead=14)
    return build


BUILDERS = {
    "bisect": _bisect, "convert": _convert, "fourier2d": _fourier2d, "interp": _interp,
    "legendre": _legendre, "loncossin": _loncossin, "relradpow": _relradpow, "sheval": _sheval,
    "sheval2dfs": _sheval2dfs, "shevaltemp": _shevaltemp, "spharpot": _spharpot,
    "sphargrd": _sphargrd, "vrot_cart2sph": _vrot("vrot_cart2sph"),
    "vrot_sph2cart": _vrot("vrot_sph2cart"), "vrot_sph2geod": _vrot("vrot_sph2geod"),
    "eval_mlt": _eval_mlt, "eval_subsol": _eval_subsol, "eval_qdlatlon": _eval_qdlatlon,
    "sunpos": _sunpos("sunpos"), "sunpos_original": _sunpos("sunpos_original"),
    "decimal_year_to_mjd2000": _timeconv("decimal_year_to_mjd2000"),
    "mjd2000_to_decimal_year": _timeconv("mjd2000_to_decimal_year"),
    "mjd2000_to_year_fraction": _timeconv("mjd2000_to_year_fraction"),
}


def build(rng, name=None, shape=None):
    """ random valid call """
    if name is None:
        name = list(BUILDERS)[rng.integers(len(BUILDERS))]
    if shape is None:
        shape = gen.shape(rng)
    call = BUILDERS[name](rng, tuple(shape))
    for key in call.tails:
        call.args[key] = np.asarray(call.args[key], dtype=float)
    return call


def same(one, other):
    """ bitwise equality of two results """
    one = one if isinstance(one, tuple) else (one,)
    other = other if isinstance(other, tuple) else (other,)
    return len(one) == len(other) and all(
        isinstance(a, np.ndarray) == isinstance(b, np.ndarray)
        and np.shape(a) == np.shape(b)
        and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
        for a, b in zip(one, other))
