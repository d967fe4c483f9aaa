"""C26 field line tracing"""
import copy
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.ref import geo
from vk.checks.c13 import Table
from vk.checks.c14 import near_node, wrap
from vk.checks.c15 import published
from eoxmagmod import convert
from eoxmagmod.magnetic_model.field_lines import trace_field_line
from eoxmagmod.magnetic_model.coefficients import SparseSHCoefficientsConstant
from eoxmagmod.magnetic_model.model import GeomagneticModel, SphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel

REG = Registry(
    rule="a case is one field line traced for a model, start point, limits and coordinate systems; every point, step, field "
         "vector and both ends of the line are judged against the model evaluated at the returned points",
)
LD = np.longdouble
RADIUS = 6371.2
LOW, HIGH = 0.9977 * RADIUS, 1e6 * RADIUS


class Analytic(GeomagneticModel):
    """ user defined models with simple field lines """
    validity = (-np.inf, np.inf)
    parameters = ("time", "location")

    def __init__(self, kind, vec):
        self.kind = kind
        self.vec = np.asarray(vec, float)

    def cart(self, xyz):
        """ field in the Cartesian frame """
        if self.kind == "uniform":
            return xyz * 0 + self.vec
        if self.kind == "radial":
            return xyz * self.vec[0]
        if self.kind == "toroidal":
            return np.cross(np.broadcast_to(self.vec, xyz.shape), xyz)
        if self.kind == "zero":
            return xyz * 0
        rad = np.sqrt((xyz**2).sum(axis=-1, keepdims=True))
        along = (xyz * self.vec).sum(axis=-1, keepdims=True)
        return 3 * xyz * along / rad**5 - self.vec / rad**3

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        location = np.asarray(location, float)
        xyz = np.asarray(geo.to_cart(location, input_coordinate_system), float)
        frame = np.asarray(geo.frame(np.asarray(geo.from_cart(xyz, output_coordinate_system), float), output_coordinate_system), float)
        return np.einsum("...ij,...j->...i", frame, self.cart(xyz)) * options.get("scale", 1.0)


def random_case(rng):
    """ (model, time, options) """
    kind = rng.integers(0, 6)
    if kind == 0:
        name, model = published(rng)
        start, end = (float(v) for v in model.validity)
        low, high = max(start, -4e4), min(end, 2e4)
        time = float(rng.uniform(low, high)) if low < high else start
        options = {"max_degree": int(rng.integers(1, 9))}
        return name, model, time, options
    if kind == 1:
        vec = rng.normal(size=3) * 10.0**rng.uniform(0, 9)
        name = str(rng.choice(["uniform", "radial", "toroidal", "dipole", "zero", "dipole"]))
        return name, Analytic(name, vec), float(rng.uniform(-1e4, 1e4)), ({"scale": float(rng.choice([1.0, -2.0]))} if rng.random() < 0.3 else {})
    degree = gen.tail(rng, 1, 5, 14)
    nm = np.array([(n, m) for n in range(1, degree + 1) for m in range(-n, n + 1)])
    coef = rng.normal(size=len(nm)) * 3000 / nm[:, 0]**2
    coef[nm[:, 0] == 1] += [4500, -29000, -1500]
    main = SphericalHarmomicGeomagneticModel(SparseSHCoefficientsConstant(nm, coef))
    if kind in (2, 3):
        options = {}
        if rng.random() < 0.4:
            options["scale"] = float(rng.choice([-1.0, 0.5, 1e-6]))
        if rng.random() < 0.4:
            options["max_degree"] = int(rng.integers(1, 5))
        return "constant", main, float(rng.uniform(-1e4, 1e4)), options
    table = wrap(Table(rng, str(rng.choice(["mjd", "decimal"])), 2, True))
    low, high = (float(v) for v in np.clip(table.validity, -4e4, 4e4))
    time = float(rng.uniform(low, high)) if low < high else 0.0
    if low >= high or bool(near_node([table], np.array([time]))[0]):
        return "constant", main, 0.0, {}
    extra = SphericalHarmomicGeomagneticModel(table.coeff)
    model = ComposedGeomagneticModel()
    model.push(main, **({"max_degree": 2} if rng.random() < 0.5 else {}))
    model.push(extra, scale=float(rng.normal()))
    return "composed", model, time, {}


def start_point(rng, cin):
    """ (point in the input coordinates) """
    mode = rng.integers(0, 5)
    sph = np.array([float(gen.latitudes(rng)), float(gen.longitudes(rng)),
                    float([RADIUS, rng.uniform(6371, 7000), rng.uniform(7000, 40000), 6871.2, rng.uniform(5000, 6400)][mode])])
    return np.asarray(convert(sph, 1, cin), float)


def settings(rng, start_radius):
    """ trace options """
    opt = {}
    if rng.random() < 0.7:
        opt["step"] = float(rng.choice([10.0, 50.0, 500.0, 1000.0, 10.0**rng.uniform(-3, 3.3)]))
    opt["max_steps"] = int(rng.choice([0, 1, 2, 7, 40, 90]))
    if rng.random() < 0.05:
        opt.pop("max_steps")
        opt["step"] = float(rng.choice([50.0, 200.0]))
    if rng.random() < 0.5:
        opt["min_radius"] = float(start_radius * rng.choice([0.5, 0.99, 0.9999, 1.01, 0.8, 0.0]))
    if rng.random() < 0.5:
        opt["max_radius"] = float(start_radius * rng.choice([1.0001, 1.01, 1.2, 3.0, 0.95, np.inf]))
    return opt


def cart_field(field, coords, cout):
    """ vectors in the Cartesian frame """
    return np.einsum("...ji,...j->...i", np.asarray(geo.frame(coords, cout), LD), np.asarray(field, LD))


def sides(line, k):
    """ the segments in the order of tracing """
    return (1.0, line[k:]), (-1.0, line[k::-1])


def judge(ctx, line, model_field, start, opt):
    """ first problem of the line for the start at any of the matching positions """
    scale = np.abs(start).max()
    step, top = opt.get("step", 100.0), opt.get("max_steps", 500)
    low, high = opt.get("min_radius", LOW), opt.get("max_radius", HIGH)
    match = np.nonzero(np.abs(line - start).max(axis=-1) <= 1e-11 * scale + 1e-9)[0]
    if not match.size:
        return "the start point is not in the line"
    norm = np.sqrt((model_field**2).sum(axis=-1))
    direction = model_field / np.where(norm > 0, norm, 1)[:, None]
    rad = np.sqrt((line**2).sum(axis=-1))
    problem = ""
    for k in match:
        problem = ""
        for sign, pick in ((1.0, slice(k, None)), (-1.0, slice(k, None, -1))):
            pts, dirs, rads = line[pick], direction[pick], rad[pick]
            count = len(pts) - 1
            side = "down" if sign > 0 else "up"
            want = pts[:-1] + sign * step * (rads[:-1] / LD(RADIUS))[:, None] * dirs[:-1]
            tol = 1e-10 * np.maximum(rads[:-1], scale) + 1e-8 * step
            err = np.abs(pts[1:] - want).max(axis=-1) if count else np.zeros(0)
            if np.any(err > tol):
                problem = problem or f"{side}: step off the field direction at {int(np.argmax(err > tol))} of {count}"
            if count > top:
                problem = problem or f"{side}: {count} steps exceed the limit"
            slack = 1e-11 * rads
            ended = (rads <= low) | (rads >= high)
            surely = (rads <= low - slack) | (rads >= high + slack)
            maybe = (rads <= low + slack) | (rads >= high - slack)
            if count > 1 and np.any(surely[1:-1]):
                problem = problem or f"{side}: continues beyond the limits"
            if count < top and (count < 1 or not maybe[-1]):
                problem = problem or f"{side}: ended after {count} steps without reaching a limit"
            ctx.count("ends at radius limits", int(count > 0 and ended[-1]))
            ctx.count("ends at the step limit", int(count == top))
        if not problem:
            return ""
    return problem


@REG.family(quick=1500, thorough=15000)
def lines(ctx, rng):
    """ every step and end of the line """
    name, model, time, options = random_case(rng)
    cin, cout = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    point = start_point(rng, cin)
    start = np.asarray(geo.to_cart(point, cin), LD)
    opt = settings(rng, float(np.sqrt((start**2).sum())))
    given = [point, point.tolist(), tuple(point.tolist()), np.repeat(point, 2)[::2]][rng.integers(0, 4)]
    backup = copy.deepcopy(given)
    kwargs = {"trace_options": dict(opt), "model_options": dict(options)}
    if not options and rng.random() < 0.5:
        kwargs.pop("model_options")
    args = (given,) if cin == 1 and cout == 1 and rng.random() < 0.5 else (given, cin, cout)
    ctx.note(model=name, time=time, point=point, systems=(cin, cout), trace_options=opt, model_options=options)
    coords, field = trace_field_line(model, time, *args, **kwargs)
    ctx.check(np.array_equal(np.asarray(given), np.asarray(backup)), "start point modified", got=given)
    ctx.check(kwargs["trace_options"] == opt and kwargs.get("model_options", options) == options, "options modified", got=kwargs)
    ctx.check(coords.ndim == 2 and coords.shape[1] == 3 and field.shape == coords.shape, "shapes", got=(coords.shape, field.shape))
    line = np.asarray(geo.to_cart(coords, cout), LD)
    # the field at the returned points
    again = np.asarray(model.eval(time, np.asarray(line, float), input_coordinate_system=2, output_coordinate_system=2, **options), LD)
    if not np.all(np.isfinite(again)):
        # a published model outside of its validity or overflow next to the centre
        raise SkipCase
    size = np.sqrt((again**2).sum(axis=-1))[:, None]
    got = cart_field(field, coords, cout)
    ctx.check(np.all(np.abs(got - again) <= 1e-8 * size + 1e-9 * size.max()), "field at the points of the line", got=got, want=again)
    if cout == 2:
        own = model.eval(time, coords, input_coordinate_system=2, output_coordinate_system=2, **options)
    else:
        own = model.eval(time, coords, input_coordinate_system=cout, output_coordinate_system=cout, **options)
    near_pole = np.abs(coords[:, 0]) > 90 - 1e-6 if cout < 2 else np.zeros(len(coords), bool)
    ctx.check(np.all((np.abs(np.asarray(own) - field) <= 1e-8 * size + 1e-9 * size.max())[~near_pole]), "field in the output frame", got=field, want=own)
    problem = judge(ctx, line, again, start, opt)
    ctx.check(not problem, problem, line=line)
    ctx.count("points", len(line))
    ctx.count("field vectors", len(line))
    ctx.key(point)


@REG.family(quick=400, thorough=4000)
def systems(ctx, rng):
    """ coordinate systems only change the representation """
    name, model, time, options = random_case(rng)
    sph = start_point(rng, 1)
    points = {cin: np.asarray(convert(sph, 1, cin), float) for cin in (0, 1, 2)}
    opt = settings(rng, sph[2])
    opt["max_steps"] = min(opt.get("max_steps", 30), 30)
    ctx.note(model=name, time=time, point=sph, trace_options=opt, model_options=options)
    first = None
    for cin in (2, 0, 1):
        for cout in (2, 0, 1):
            coords, field = trace_field_line(model, time, points[cin], cin, cout, opt, options)
            if not np.all(np.isfinite(coords)):
                raise SkipCase
            line = np.asarray(geo.to_cart(coords, cout), LD)
            vec = cart_field(field, coords, cout)
            if first is None:
                first = line, vec
                continue
            # rounding of the start could change the number of steps by reaching a limit sooner
            if len(line) != len(first[0]):
                rad = np.sqrt((first[0]**2).sum(axis=-1))
                close = min(np.abs(rad / opt.get("min_radius", LOW) - 1).min(), np.abs(rad / opt.get("max_radius", HIGH) - 1).min())
                ctx.check(close < 1e-10, "same number of points", systems=(cin, cout), got=len(line), want=len(first[0]))
                continue
            scale = np.abs(first[0]).max()
            ctx.check(np.abs(line - first[0]).max() <= 1e-7 * scale, f"same line in systems {cin} {cout}", got=line, want=first[0])
            size = np.sqrt((first[1]**2).sum(axis=-1))[:, None]
            ctx.check(np.all(np.abs(vec - first[1]) <= 1e-5 * size + 1e-7 * size.max()), f"same field in systems {cin} {cout}", got=vec, want=first[1])
    again = trace_field_line(model, time, points[1], 1, 1, opt, options)
    ctx.equal("repeated line", again[0], coords)
    ctx.equal("repeated field", again[1], field)
    ctx.key(sph)


@REG.family(quick=120, thorough=1000)
def dipole_lines(ctx, rng):
    """ lines of the axial dipole: r = L cos^2(lat), invariant longitude, both feet on the ground """
    lat = float(rng.choice([-1, 1]) * rng.uniform(20, 70))
    lon = float(rng.uniform(-180, 180))
    rad = RADIUS * float(rng.uniform(1.01, 1.3))
    step = float(rng.choice([10.0, 20.0]))
    sign = float(rng.choice([-1.0, 1.0]))
    model = SphericalHarmomicGeomagneticModel(SparseSHCoefficientsConstant(np.array([(1, 0)]), np.array([-30000.0 * sign])))
    level = rad / np.cos(np.deg2rad(lat))**2
    steps = int(8 * level / (step * 1.0)) + 100
    ctx.note(lat=lat, lon=lon, rad=rad, step=step, sign=sign)
    coords, field = trace_field_line(model, 0.0, [lat, lon, rad], trace_options={"step": step, "max_steps": steps, "min_radius": RADIUS})
    ctx.check(np.abs(geo.angdiff(coords[:, 1], lon)).max() < 1e-6, "longitude", got=coords[:, 1])
    got = coords[:, 2] / np.cos(np.deg2rad(coords[:, 0]))**2
    ctx.check(np.all(np.abs(got / level - 1) < 0.12 * step / 10 * (level / RADIUS)), "dipole shell", got=got, want=level)
    # along the field: from the south to the north for the Earth like dipole
    ctx.check(np.all(np.diff(coords[:, 0]) * sign > 0), "direction", got=coords[:, 0])
    ctx.check(coords[0, 2] <= RADIUS and coords[-1, 2] <= RADIUS and np.all(coords[1:-1, 2] > RADIUS), "both feet on the ground", got=coords[[0, -1]])
    ctx.check(np.all((coords[[0, -1], 0] * sign) * [1, -1] < 0), "feet in opposite hemispheres", got=coords[[0, -1]])
    dots = (np.diff(geo.to_cart(coords, 1), axis=0) * cart_field(field, coords, 1)[:-1]).sum(axis=-1)
    ctx.check(np.all(dots > 0), "order of the points along the field", got=dots)
    ctx.count("points", len(coords))
    ctx.key(np.array([lat, lon, rad]))
