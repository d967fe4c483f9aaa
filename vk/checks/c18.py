"""C18 ionospheric models"""
import os
import numpy as np
from vk.core import Registry
from vk import gen
from vk.ref import cal, dip, geo, sh
from vk.checks import c08, c12
from eoxmagmod import load_model_swarm_mio_internal, load_model_swarm_mio_external
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel, MIOPrimaryGeomagneticModel
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.loader_mio import (
    load_coeff_swarm_mio_internal, load_coeff_swarm_mio_external, convert_external_mio_coeff,
)
from eoxmagmod.solar_position import sunpos
from eoxmagmod.time_util import mjd2000_to_year_fraction_simple

REG = Registry(
    rule="a case is one generated coefficient file (or set of its coefficients) evaluated for a "
         "combination of time, location, F10.7 and sub-solar point shapes and judged by the double "
         "Fourier and spherical harmonic sums in extended precision in the tilted dipole frame",
    assumptions=["the sub-solar point used by default is the one of the sunpos() function (C22)"],
)
LD = np.longdouble
A = 6371.2
SCALES = (2 * np.pi, 2 * np.pi / 24)
TEST_FILE = os.path.join(os.path.dirname(__import__("eoxmagmod").__file__),
                         "magnetic_model", "tests", "data", "TEST_MIO_SHA.txt")


class Product:
    """ generated content of a MIO file """
    # what can be set only for models created directly from the coefficients
    radius = A
    validity = (-np.inf, np.inf)
    simple_years = False

    def customize(self, rng):
        """ user's choice of the optional parameters """
        if rng.random() < 0.3:
            self.radius = float(np.round(rng.choice([6378.137, rng.uniform(5000, 8000)]), 3))
        if rng.random() < 0.3:
            limits = np.sort(np.round(rng.uniform(-1e4, 1.2e4, 2)))
            self.validity = tuple(float(v) if rng.random() < 0.8 else w
                                  for v, w in zip(limits, (-np.inf, np.inf)))
        self.simple_years = rng.random() < 0.3

    @property
    def sheet(self):
        """ radius of the current sheet """
        return self.radius + self.height

    def __init__(self, rng, top=None):
        self.nmax = gen.tail(rng, 1, 6, 30) if top is None else top
        self.mmax = int(rng.integers(0, self.nmax + 1))
        self.pmin, self.pmax = sorted(int(v) for v in rng.integers(-3, 5, 2))
        self.smin, self.smax = sorted(int(v) for v in rng.integers(-3, 4, 2))
        if rng.random() < 0.03:
            # finer resolution of the day and season
            self.pmin, self.pmax = -int(rng.integers(0, 25)), int(rng.integers(0, 25))
            self.smin, self.smax = -int(rng.integers(0, 8)), int(rng.integers(0, 8))
            self.nmax = min(self.nmax, 5)
            self.mmax = min(self.mmax, 5)
        self.colat = float(np.round(rng.choice([rng.uniform(0, 20), rng.uniform(0, 180), 0.0, 9.92]), 4))
        self.phi = float(np.round(rng.choice([rng.uniform(-180, 360), 287.78, 0.0, 180.0, -180.0, 360.0]), 4))
        self.height = float(np.round(rng.choice([110.0, 0.0, rng.uniform(50, 500)]), 3))
        self.wolf = float(np.round(rng.choice([0.01485, 0.0, rng.uniform(-0.01, 0.03)]), 6))
        pairs = []
        for n in range(1, self.nmax + 1):
            for m in range(0, min(n, self.mmax) + 1):
                pairs += [(n, 0)] if m == 0 else [(n, m), (n, -m)]
        if rng.random() < 0.2:
            pairs = [pairs[i] for i in np.sort(rng.permutation(len(pairs))[:rng.integers(1, len(pairs) + 1)])]
        self.nm = np.array(pairs)
        shape = (len(pairs), self.smax - self.smin + 1, self.pmax - self.pmin + 1, 2)
        self.qs = np.array([float(f"{v:.8e}") for v in (rng.normal(size=shape) * 10).ravel()]).reshape(shape)
        self.gh = np.array([float(f"{v:.8e}") for v in (rng.normal(size=shape) * 10).ravel()]).reshape(shape)

    @property
    def extent(self):
        """ pmin, pmax, smin, smax """
        return self.pmin, self.pmax, self.smin, self.smax

    @property
    def pole(self):
        """ latitude, longitude """
        return 90.0 - self.colat, self.phi

    def write(self, path, rng):
        """ save file """
        with open(path, "w", encoding="ascii") as file:
            for _ in range(rng.integers(0, 4)):
                file.write("# comment 1 2 3\n")
            sep = str(rng.choice([" ", "  ", "\t"]))
            file.write(sep.join(map(str, [
                self.nmax, self.mmax, *self.extent, f"{self.colat:.6f}", f"{self.phi:.6f}",
                f"{self.height:.6f}", f"{self.wolf:.6f}"])) + "\n")
            for table in (self.qs, self.gh):
                for (n, m), row in zip(self.nm, table):
                    file.write(f"{n:2d}{sep}{m:3d}{sep}" + sep.join(f"{v:15.8e}" for v in row.ravel()) + "\n")

    def coefficients(self, kind):
        """ (coefficients, internal) of the field: secondary, below, above """
        if kind == "secondary":
            return self.gh, True
        if kind == "below":
            return self.qs, False
        n = np.asarray(self.nm[:, 0], LD)
        fac = -(n / (n + 1)) * (1 + LD(self.height) / LD("6371.2")) ** (2 * n + 1)
        return self.qs * fac[:, None, None, None], True

    def object(self, kind, **kwargs):
        """ model object created directly from the coefficients """
        coef, internal = self.coefficients(kind)
        options = {}
        if self.simple_years:
            options["mjd2000_to_year_fraction"] = mjd2000_to_year_fraction_simple
        for key, value in zip(("validity_start", "validity_end"), self.validity):
            if np.isfinite(value):
                options[key] = value
        return DipoleMIOGeomagneticModel(
            SparseSHCoefficientsMIO(self.nm, np.asarray(coef, float), ps_extent=self.extent, is_internal=internal,
                                    **options),
            north_pole=self.pole, wolf_ratio=self.wolf, **kwargs)

    def field(self, kind, time, coords, cin, cout, low=-1, high=-1, f107=None, sol=None, scale=1.0):
        """ expected (field, tolerance) arrays; all arguments of the same shape """
        if kind == "primary":
            rad = coords[..., 2] if cin == 1 else geo.cart2sph(geo.to_cart(coords, cin))[..., 2]
            below = rad <= self.sheet
            vals = [self.field(k, time, coords, cin, cout, low, high, f107, sol, scale) for k in ("below", "above")]
            return tuple(np.where(below[..., None], *[v[i] for v in vals]) for i in range(2))
        if kind == "total":
            vals = [self.field(k, time, coords, cin, cout, low, high, f107, sol, scale) for k in ("primary", "secondary")]
            return vals[0][0] + vals[1][0], vals[0][1] + vals[1][1]
        coef, internal = self.coefficients(kind)
        fine = np.isfinite(time) & (time >= self.validity[0]) & (time <= self.validity[1])
        time_ = np.where(fine, time, 0.0)
        if sol is None:
            dec, _, hour, _, _ = sunpos(time_, 0, 0, rad=0)
            sol = dec, -hour
        angle, dist = dip.sun_angle(*self.pole, *sol)
        mut = np.asarray((180 - angle) / 15, LD)
        frac = np.asarray(time_, LD) / LD(365.25) if self.simple_years else cal.to_year(time_)[1]
        deg_s = np.arange(self.smin, self.smax + 1)
        deg_p = np.arange(self.pmin, self.pmax + 1)
        arg = 2 * geo.DEG * 180 * (frac[..., None, None] * deg_s[:, None] + mut[..., None, None] * deg_p / 24)
        val = (np.einsum("...sp,ksp->...k", np.cos(arg), coef[..., 0].astype(LD))
               + np.einsum("...sp,ksp->...k", np.sin(arg), coef[..., 1].astype(LD)))
        mags = np.broadcast_to(np.abs(coef).sum(axis=(1, 2, 3)), val.shape)
        top = int(self.nm[:, 0].max())
        n = self.nm[:, 0]
        keep = np.ones(len(n), bool)
        if high >= 0:
            keep &= n <= high
        if low >= 0:
            keep &= n >= low
        val = val * keep
        mags = mags * keep
        dense = sh.dense(self.nm, val, top)
        got, _ = dip.field(coords, dense, self.pole, cin, cout, top, internal)
        _, mag = dip.field(coords, np.asarray(sh.dense(self.nm, mags.astype(LD), top)), self.pole, cin, cout, top, internal)
        mag = np.asarray(mag, float)
        cart = dip.to_dipole(geo.to_cart(coords, cin), dip.rotation(LD(self.pole[0]), LD(self.pole[1])))
        dsph = geo.cart2sph(cart)
        size = abs(self.smin) + abs(self.smax) + abs(self.pmin) + abs(self.pmax) + 1
        phase = (1e-13 + 1e-15 * np.abs(time_)) * size / np.maximum(np.asarray(dist, float), 1e-3)
        turns = 1 + (np.abs(np.asarray(coords[..., 1], float)) / 57 if cin != 2 else 0.0)
        tol = 5 * turns * c08.tolerance(np.asarray(dsph, float), 1, mag, top) + phase * mag
        factor = LD(1) if f107 is None else 1 + LD(self.wolf) * np.asarray(f107, LD)
        scl = np.asarray(scale, LD)
        got = -got * np.asarray(factor)[..., None] * scl
        tol = tol[..., None] * np.abs(np.asarray(factor, float))[..., None] * np.abs(np.asarray(scl, float)) + 1e-300
        bad = ~fine | np.isnan(np.broadcast_to(np.asarray(factor), fine.shape))
        got = np.where(bad[..., None], np.nan, got)
        return got, np.broadcast_to(tol, got.shape)


def arguments(rng, product, near_sheet=True, plain_scale=False):
    """ random call: (time, coords, kwargs), expected arguments dict """
    tshape, xshape, full = gen.time_loc_shapes(rng)
    span = 1e4 if rng.random() < 0.8 else 1e5
    time = np.where(rng.random(tshape) < 0.8, rng.uniform(-span, 1.2 * span, tshape), np.round(rng.uniform(-span, span, tshape)))
    if rng.random() < 0.15:
        time = np.where(rng.random(tshape) < 0.2, np.nan, time)
    time = np.asarray(time)
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    coords = c08.points(rng, xshape, cin)
    time = np.where(rng.random(tshape) < (0.1 if np.isfinite(product.validity).any() else 0),
                    rng.choice(product.validity, tshape), time)
    time = np.where(np.isinf(time), 0.0, time)
    sheet = product.sheet
    if near_sheet and rng.random() < 0.6:
        # locations on both sides of the sheet
        sph = gen.sph(rng, xshape)
        sph[..., 2] = sheet + rng.choice([-1, 1], xshape) * 10.0 ** rng.uniform(-8, 2.5, xshape)
        if cin == 1:
            coords = sph
        else:
            sph[..., 2] = sheet + rng.choice([-1, 1], xshape) * 10.0 ** rng.uniform(-6, 2.5, xshape)
            coords = np.asarray(geo.from_cart(geo.to_cart(sph, 1), cin), float)
            if cin == 0:
                coords[..., 1] = sph[..., 1]
    # locations on the sheet itself belong to either side because of rounding, unless it is given exactly
    rad = geo.cart2sph(geo.to_cart(coords, cin))[..., 2]
    onsheet = (np.abs(np.asarray(rad, float) - sheet) < (1e-9 if cin == 1 else 1e-7))[..., None]
    coords = np.where(onsheet, coords * 1.0001 if cin == 2 else coords + [0, 0, 1.0], coords)
    if cin == 1 and sheet - product.radius == product.height and rng.random() < 0.4:
        coords = np.where(rng.random(xshape)[..., None] < 0.4, np.stack(
            [coords[..., 0], coords[..., 1], np.full(xshape, sheet)], -1), coords)
    kwargs, want = {}, {"cin": cin, "cout": cout}

    def _values(low, high):
        kind = rng.integers(0, 3)
        shp = () if kind == 0 else full if kind == 1 else full[:rng.integers(0, len(full) + 1)]
        val = rng.uniform(low, high, shp)
        return np.asarray(val) if shp else float(val)

    if rng.random() < 0.6:
        f107 = _values(60, 250) if rng.random() < 0.7 else _values(-500, 1000)
        if rng.random() < 0.2:
            f107 = np.where(rng.random(np.shape(f107)) < 0.3, np.nan, f107)
        kwargs["f107"] = f107
        want["f107"] = gen.leading(f107, full)
    if rng.random() < 0.4:
        lat, lon = (_values(-23.5, 23.5) if rng.random() < 0.7 else _values(-90, 90)), _values(-180, 180)
        kwargs["lat_sol"], kwargs["lon_sol"] = lat, lon
        want["sol"] = gen.leading(lat, full), gen.leading(lon, full)
    if rng.random() < 0.3:
        want["low"] = kwargs["min_degree"] = int(rng.integers(-1, product.nmax + 2))
    if rng.random() < 0.3:
        want["high"] = kwargs["max_degree"] = int(rng.integers(-1, product.nmax + 2))
    if rng.random() < 0.3:
        want["scale"] = kwargs["scale"] = 2.5 if plain_scale or rng.random() < 0.4 else 0.0 if rng.random() < 0.2 else \
            rng.normal(size=3) if rng.random() < 0.7 else rng.integers(0, 9, 3).astype(rng.choice(["u1", "u2", "i4"]))
    if cin != 1 or rng.random() < 0.5:
        kwargs["input_coordinate_system"] = cin
    if cout != 1 or rng.random() < 0.5:
        kwargs["output_coordinate_system"] = cout
    want["time"], want["coords"] = gen.leading(time, full), gen.leading(coords, full, 1)
    return time, coords, kwargs, want


def observe(ctx, rng, model, product, kind, route):
    """ evaluate and compare """
    time, coords, kwargs, want = arguments(rng, product)
    ctx.note(route=route, kind=kind, pole=product.pole, height=product.height, wolf=product.wolf, extent=product.extent,
             nm=product.nm, time=time, coords=coords, kwargs=kwargs)
    keep = {k: np.array(v) for k, v in kwargs.items()}
    got = model.eval(gen.relayout(rng, time)[1] if time.size else time,
                     gen.relayout(rng, coords)[1] if coords.size else coords, **kwargs)
    for key, val in keep.items():
        ctx.equal(f"argument {key}", kwargs[key], val)
    exp, tol = product.field(kind, **want)
    ctx.count(f"{route} {kind}")
    ctx.count("nan_expected", int(np.isnan(exp[..., 0]).sum()))
    if kind in ("primary", "total"):
        rad = geo.cart2sph(geo.to_cart(want["coords"], want["cin"]))[..., 2]
        ctx.count("points_below", int((rad <= product.sheet).sum()))
        ctx.count("points_on_sheet", int((want["coords"][..., 2] == product.sheet).sum()) if want["cin"] == 1 else 0)
        ctx.count("points_above", int((rad > product.sheet).sum()))
    ctx.close("field", got, exp, rtol=0, atol=tol)
    return got


@REG.family(quick=1500, thorough=15000)
def objects(ctx, rng):
    """ models created from coefficients """
    product = Product(rng)
    if rng.random() < 0.5:
        product.customize(rng)
    kind = str(rng.choice(["secondary", "below", "above", "primary", "total"]))
    if kind in ("secondary", "below", "above"):
        model = product.object(kind)
    else:
        model = MIOPrimaryGeomagneticModel(product.object("below"), product.object("above"), height=product.height,
                                           **({"earth_radius": product.radius} if product.radius != A else {}))
        ctx.check(tuple(model.validity) == product.validity, "validity", got=model.validity, want=product.validity)
        if kind == "total":
            model = ComposedGeomagneticModel(model, product.object("secondary"))
    observe(ctx, rng, model, product, kind, "object")


@REG.family(quick=700, thorough=7000)
def files(ctx, rng):
    """ models loaded from files """
    product = Product(rng)
    path = os.path.join(ctx.work_dir, "mio.txt")
    product.write(path, rng)
    kind = str(rng.choice(["secondary", "below", "above", "primary", "total"]))
    load = {
        "secondary": lambda: load_model_swarm_mio_internal(path),
        "below": lambda: load_model_swarm_mio_external(path, above_ionosphere=False),
        "above": lambda: load_model_swarm_mio_external(path, above_ionosphere=True),
        "primary": lambda: load_model_swarm_mio_external(path),
        "total": lambda: ComposedGeomagneticModel(
            load_model_swarm_mio_external(path), load_model_swarm_mio_internal(path)),
    }
    model = load[kind]()
    if kind != "total":
        ctx.check(int(model.degree) == product.nm[:, 0].max() and int(model.min_degree) == product.nm[:, 0].min(), "degree bounds")
    ctx.check(set(model.parameters) == {"time", "location", "f107", "subsolar_point"}, "parameters", got=model.parameters)
    ctx.check(tuple(model.validity) == (-np.inf, np.inf), "unlimited validity", got=model.validity)
    observe(ctx, rng, model, product, kind, "file")


@REG.family(quick=500, thorough=5000)
def coefficients(ctx, rng):
    """ coefficients for times and MUT """
    product = Product(rng)
    path = os.path.join(ctx.work_dir, "mio.txt")
    product.write(path, rng)
    kind = str(rng.choice(["secondary", "below", "above"]))
    coeff, params = load_coeff_swarm_mio_internal(path) if kind == "secondary" else \
        load_coeff_swarm_mio_external(path, above_ionosphere=kind == "above")
    table, internal = product.coefficients(kind)
    ctx.check(coeff.is_internal == internal, "source side")
    ctx.check(abs(params["lat_NGP"] - product.pole[0]) < 1e-9
              and abs(float(geo.angdiff(params["lon_NGP"], product.pole[1]))) < 1e-9
              and -180 <= params["lon_NGP"] <= 180, "dipole pole", got=params)
    ctx.check(params["height"] == product.height and params["wolf_ratio"] == product.wolf, "height and Wolf ratio")
    shape = gen.shape(rng)
    span, turns = (1e4, 1) if rng.random() < 0.7 else (1e5, 20)
    time, mut = rng.uniform(-span, span, shape), rng.uniform(-24 * (turns > 1), 24 * turns, shape)
    low, high = int(rng.integers(-1, product.nmax + 1)), int(rng.integers(-1, product.nmax + 2))
    ctx.note(kind=kind, time=time, mut=mut, low=low, high=high, nm=product.nm)
    got, degree = coeff(time, mut, min_degree=low, max_degree=high)
    n = product.nm[:, 0]
    keep = (n >= low if low >= 0 else n >= 0) & (n <= high if high >= 0 else n >= 0)
    val, err = c12.reference(np.asarray(cal.to_year(time)[1], float), mut, np.asarray(table, float),
                             product.smin, product.pmin, SCALES)
    top = int(n[keep].max()) if keep.any() else None
    if top is None:
        ctx.check(not np.any(got), "empty range of degrees")
        ctx.key(low, high, product.nm)
        return
    ctx.check(int(degree) == top or (np.shape(got)[-2] >= sh.size(top)), "degree", got=degree, want=top)
    want = sh.dense(product.nm[keep], val[..., keep], int(degree))
    tol = sh.dense(product.nm[keep], (err + 1e-12 * np.abs(np.asarray(table, float)).sum(axis=(1, 2, 3)) * 20)[..., keep], int(degree))
    ctx.close("coefficients", got, want, rtol=0, atol=tol)
    conv = convert_external_mio_coeff(product.nmax, product.nm, product.qs, product.height)
    above, _ = product.coefficients("above")
    ctx.close("converted coefficients", conv, above, rtol=1e-13)


@REG.family(quick=300, thorough=3000)
def sheet(ctx, rng):
    """ the radial field is continuous across the sheet, the horizontal is not """
    product = Product(rng)
    product.height = 110.0
    model = MIOPrimaryGeomagneticModel(product.object("below"), product.object("above"), height=product.height)
    size = gen.tail(rng, 1, 6, 30)
    coords = gen.sph(rng, (size,))
    time = rng.uniform(-1e4, 1e4, size)
    f107 = rng.uniform(60, 250, size)
    coords[:, 2] = A + 110 - 1e-7
    low = model.eval(time, coords, f107=f107)
    coords[:, 2] = A + 110 + 1e-7
    high = model.eval(time, coords, f107=f107)
    ctx.note(coords=coords, time=time, f107=f107)
    big = 1e-9 * np.abs(np.array([low, high])).max() + 1e-9 * np.abs(product.qs).sum() * product.nmax * (1 + 250 * abs(product.wolf)) * 1.2 ** product.nmax
    ctx.close("radial continuity", high[:, 2], low[:, 2], rtol=0, atol=big)
    # F10.7 scaling is affine
    one = model.eval(time, coords, f107=np.zeros(size))
    none = model.eval(time, coords)
    ctx.close("zero index", one, none, rtol=1e-13, atol=0)
    ctx.close("scaling", high, none * (1 + product.wolf * f107)[:, None], rtol=1e-12, atol=0)


@REG.family(quick=200, thorough=2000)
def shipped_example(ctx, rng):
    """ the example product of the repository read independently """
    if not os.path.exists(TEST_FILE):
        rows = None
    else:
        with open(TEST_FILE, encoding="ascii") as file:
            rows = [line.split() for line in file if line.strip() and not line.startswith("#")]
    product = Product(rng)
    path = os.path.join(ctx.work_dir, "mio.txt")
    if rows:
        head = rows[0]
        product.nmax, product.mmax, product.pmin, product.pmax, product.smin, product.smax = (int(v) for v in head[:6])
        product.colat, product.phi, product.height, product.wolf = (float(v) for v in head[6:])
        data = rows[1:]
        half = len(data) // 2
        product.nm = np.array([[int(r[0]), int(r[1])] for r in data[:half]])
        shape = (half, product.smax - product.smin + 1, product.pmax - product.pmin + 1, 2)
        product.qs = np.array([[float(v) for v in r[2:]] for r in data[:half]]).reshape(shape)
        product.gh = np.array([[float(v) for v in r[2:]] for r in data[half:]]).reshape(shape)
        path = TEST_FILE
    else:
        product.write(path, rng)
    kind = str(rng.choice(["secondary", "primary"]))
    model = load_model_swarm_mio_internal(path) if kind == "secondary" else load_model_swarm_mio_external(path)
    observe(ctx, rng, model, product, kind, "example")


class Halves(Product):
    """ unrelated models below and above the sheet """

    def __init__(self, rng):
        super().__init__(rng)
        self.parts = {"below": Product(rng), "above": Product(rng)}
        self.nmax = max(part.nmax for part in self.parts.values())
        for part in self.parts.values():
            part.height = self.height
        self.height = float(np.round(rng.uniform(20, 900)))

    def field(self, kind, time, coords, cin, cout, *args, **kwargs):
        """ primary field """
        if kind != "primary":
            return self.parts[kind].field(kind, time, coords, cin, cout, *args, **kwargs)
        return super().field(kind, time, coords, cin, cout, *args, **kwargs)


@REG.family(quick=250, thorough=3000)
def halves(ctx, rng):
    """ models below and above the sheet with their own degrees, poles, extents and Wolf ratios """
    product = Halves(rng)
    limits = []
    for part in product.parts.values():
        limits.append(part.nm[:, 0])
        if rng.random() < 0.3:
            part.customize(rng)
            part.validity = (-np.inf, np.inf)
    model = MIOPrimaryGeomagneticModel(
        product.parts["below"].object("below"), product.parts["above"].object("above"), height=product.height)
    ctx.check(int(model.degree) == max(v.max() for v in limits), "maximum degree", got=model.degree)
    ctx.check(int(model.min_degree) == min(v.min() for v in limits), "minimum degree", got=model.min_degree)
    observe(ctx, rng, model, product, "primary", "halves")
    for part in product.parts.values():
        part.customize(rng)
    one, two = (part.object(side) for side, part in product.parts.items())
    spans = [part.validity for part in product.parts.values()]
    model = MIOPrimaryGeomagneticModel(one, two)
    ctx.check(tuple(model.validity) == (max(s[0] for s in spans), min(s[1] for s in spans)), "validity of both halves",
              got=model.validity, want=spans)
