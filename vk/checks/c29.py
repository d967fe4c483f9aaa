"""C29 the shipped models describe one and the same Earth"""
import os
import re
import numpy as np
from vk.core import Registry, SkipCase
from vk import gen
from vk.ref import geo
import eoxmagmod
from eoxmagmod import (
    convert, data as edata, decimal_year_to_mjd2000, eval_qdlatlon, eval_qdlatlon_with_base_vectors, load_model_igrf,
    load_model_shc, load_model_shc_combined, load_model_wmm,
    mjd2000_to_decimal_year, vincdecnorm, vnorm, vrotate,
)
from eoxmagmod.magnetic_model.field_lines import trace_field_line
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel

REG = Registry(
    rule="a case is one comparison of shipped models (generations of IGRF, core models, lithospheric models, predictions, "
         "quasi-dipole coefficients, traced field lines) which are independent estimates of the same quantity, at generated "
         "places, epochs and coordinate systems",
    assumptions=[
        "the accepted differences between the models (several times those seen on a dense sample of the globe) are far below "
        "the effect of a wrong file, epoch, sign, unit, normalisation or frame",
        "definitive IGRF coefficients of an epoch are the same in all later generations",
    ],
)
CORE = {     # loader, accepted difference from the latest IGRF [nT]
    "CHAOS7_CORE_X18": (load_model_shc, 200), "CHAOS8_CORE_V1": (load_model_shc, 200),
    "CHAOS7_CORE_X18_PREDICTION": (load_model_shc, 250), "CHAOS8_CORE_V1_PREDICTION": (load_model_shc, 250),
    "CHAOS7_CORE_LATEST": (load_model_shc, 200), "CHAOS8_CORE_LATEST": (load_model_shc, 200),
    "CHAOS_CORE_LATEST": (load_model_shc, 200), "CHAOS_CORE_PREDICTION_LATEST": (load_model_shc, 250),
    "CHAOS7_CORE_PREDICTION_LATEST": (load_model_shc, 250), "CHAOS8_CORE_PREDICTION_LATEST": (load_model_shc, 250),
    "SIFM": (load_model_shc, 100), "IGRF12": (load_model_shc, 500), "IGRF13": (load_model_shc, 800),
    "IGRF14": (load_model_shc, 1e-5), "IGRF_LATEST": (load_model_shc, 1e-5), "IGRF11": (load_model_igrf, 500),
    "WMM_2015": (load_model_wmm, 250),
}
# years until which the coefficients are definitive, tolerance between the nodes (a different interpolation of IGRF 11)
DEFINITIVE = {"IGRF11": (2005.0, 1.5), "IGRF12": (2010.0, 1e-6), "IGRF13": (2015.0, 1e-6)}
STATIC = ["CHAOS7_STATIC", "CHAOS8_STATIC", "CHAOS_STATIC_LATEST", "LCS1", "MF7"]
APEX = ["APEX_2015", "APEX_2020", "APEX_2025", "APEX_2030", "APEX_LATEST"]
_STATE = {}


def model(name, loader=load_model_shc):
    """ loaded model """
    if name not in _STATE:
        path = getattr(edata, name, None)
        if path is None or not os.path.exists(path):
            raise SkipCase
        _STATE[name] = loader(path)
    return _STATE[name]


def mjd(year):
    """ MJD2000 """
    return float(decimal_year_to_mjd2000(float(year)))


def near_surface(rng, num):
    """ geocentric spherical locations at most 500 km above the ground """
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, num)))
    return np.stack([lat, rng.uniform(-180, 180, num), 6371.2 + rng.choice([0, 10, 300, 500]) + rng.uniform(-10, 20, num)], -1)


def evaluated(rng, item, time, coords, **options):
    """ spherical field vectors evaluated in random coordinate systems """
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    given = np.asarray(convert(coords, 1, cin))
    out = item.eval(time, given, input_coordinate_system=cin, output_coordinate_system=cout, **options)
    there = np.asarray(convert(coords, 1, cout))
    return np.asarray(vrotate(out, there, coords, cout, 1)), (cin, cout)


@REG.family(quick=400, thorough=6000)
def generations(ctx, rng):
    """ definitive epochs of the IGRF generations """
    name = str(rng.choice(list(DEFINITIVE)))
    last, tol = DEFINITIVE[name]
    old, new = model(name, CORE[name][0]), model("IGRF_LATEST")
    if rng.random() < 0.3:
        year = float(rng.integers(1900 // 5, int(last) // 5 + 1) * 5)
        tol = 1e-6
    else:
        year = float(rng.uniform(1900, last))
    coords = near_surface(rng, gen.tail(rng, 1, 10, 300))
    one, frames = evaluated(rng, old, mjd(year), coords)
    two, others = evaluated(rng, new, mjd(year), coords)
    ctx.note(name=name, year=year, coords=coords, frames=(frames, others))
    ctx.close(f"{name} and the latest IGRF", one, two, rtol=0, atol=tol + 1e-5)
    ctx.count(name)


@REG.family(quick=600, thorough=9000)
def cores(ctx, rng):
    """ core field of the independent models """
    name = str(rng.choice(list(CORE)))
    loader, tol = CORE[name]
    item, igrf = model(name, loader), model("IGRF_LATEST")
    start, end = (float(v) for v in item.validity)
    start, end = max(start, float(igrf.validity[0])), min(end, float(igrf.validity[1]))
    if name in ("IGRF11", "IGRF12", "IGRF13") and rng.random() < 0.5:
        start = mjd(DEFINITIVE[name][0])
    time = float(rng.choice([start, end, rng.uniform(start, end), rng.uniform(start, end), rng.uniform(start, end)]))
    coords = near_surface(rng, gen.tail(rng, 1, 10, 300))
    top = int(rng.choice([13, 13, 13, 12, 8, 3, 1]))
    one, frames = evaluated(rng, item, time, coords, max_degree=top)
    two, _ = evaluated(rng, igrf, time, coords, max_degree=top)
    ctx.note(name=name, time=time, coords=coords, frames=frames, top=top)
    ctx.close(f"core field of {name}", one, two, rtol=0, atol=tol)
    ctx.count(name)


@REG.family(quick=150, thorough=2000)
def lithosphere(ctx, rng):
    """ lithospheric models are correlated """
    names = [str(v) for v in rng.choice(STATIC, 2, replace=False)]
    low = int(rng.integers(21, 40))
    high = int(rng.integers(low, 71))
    coords = near_surface(rng, 150)
    coords[:, 2] = 6371.2 + rng.uniform(0, 30)
    time = float(rng.uniform(-1000, 9000))
    one, two = (evaluated(rng, model(n), time, coords, min_degree=low, max_degree=high)[0] for n in names)
    ctx.note(names=names, low=low, high=high, time=time)
    size = [float(np.sqrt((v**2).mean())) for v in (one, two)]
    corr = float((one * two).mean()) / (size[0] * size[1])
    ctx.key(names, low, high, corr)
    ctx.check(corr > 0.9, "correlation of the lithospheric models", corr=corr)
    ctx.check(0.85 < size[0] / size[1] < 1.2, "strength of the lithospheric models", size=size)
    ctx.check(0.01 < size[0] < 300, "strength of the lithospheric field [nT]", size=size)
    ctx.count(" ".join(names))


@REG.family(quick=150, thorough=2000)
def coefficients(ctx, rng):
    """ coefficient by coefficient """
    kind = int(rng.integers(0, 3))
    names, low, high, tol = [
        (("CHAOS7_CORE_LATEST", "CHAOS8_CORE_LATEST"), 1, 20, 3.0),
        (tuple(rng.choice(["CHAOS7_STATIC", "CHAOS8_STATIC", "CHAOS_STATIC_LATEST", "LCS1"], 2, replace=False)), 21, 185, 0.3),
        (("MF7", str(rng.choice(["CHAOS7_STATIC", "CHAOS8_STATIC", "LCS1"]))), 21, 133, 0.5),
    ][kind]
    names = [str(n) for n in names]
    one, two = (model(n).coefficients for n in names)
    start, end = (max(float(one.validity[0]), float(two.validity[0]), -1e4), min(float(one.validity[1]), float(two.validity[1]), 2e4))
    time = float(rng.uniform(start, end))
    ctx.note(names=names, time=time)
    got, want = (c(time, min_degree=low, max_degree=high)[0] for c in (one, two))
    ctx.check(got.shape == want.shape, "coefficients have the same degree", got=got.shape, want=want.shape)
    ctx.close(f"coefficients of {names[0]} and {names[1]}", got, want, rtol=0, atol=tol)
    if kind == 1:
        # the expansions above the degree 30 are common
        first = 30 * 31 // 2
        ctx.close("common coefficients of the lithospheric models", got[first:], want[first:], rtol=0, atol=2e-3)
    ctx.count(" ".join(names))


@REG.family(quick=200, thorough=3000)
def combinations(ctx, rng):
    """ core followed by its prediction, core and static parts of the same series """
    series = str(rng.choice(["CHAOS7", "CHAOS8", "CHAOS"]))
    suffix = {"CHAOS7": "_LATEST", "CHAOS8": "_LATEST", "CHAOS": "_LATEST"}[series]
    static = "CHAOS_STATIC_LATEST" if series == "CHAOS" else series + "_STATIC"
    names = [series + "_CORE" + suffix, series + "_CORE_PREDICTION" + suffix, static]
    paths = [getattr(edata, n, None) for n in names]
    if not all(p and os.path.exists(p) for p in paths):
        raise SkipCase
    core, forecast, crust = (model(n) for n in names)
    join = float(core.validity[1])
    ctx.check(float(forecast.validity[0]) == join, "the prediction starts where the model ends",
              got=(core.validity, forecast.validity), names=names)
    ctx.check(float(forecast.validity[1]) > join, "the prediction continues the model")
    if ("joined", series) not in _STATE:
        _STATE["joined", series] = eoxmagmod.load_model_shc(*paths[:2])
    joined = _STATE["joined", series]
    coords = near_surface(rng, gen.tail(rng, 1, 6, 50))
    step = float(10.0 ** rng.uniform(-6, 1))
    before, after = joined.eval(join - step, coords), joined.eval(join + step, coords)
    ctx.note(names=names, coords=coords, step=step)
    # secular variation is below a nT per day
    ctx.close("continuity of the prediction", after, before, rtol=0, atol=4 * step + 0.2)
    time = float(rng.uniform(core.validity[0], core.validity[1]))
    top = int(rng.choice([-1, 30, 60]))
    options = {"max_degree": top} if top > 0 else {}
    total = ComposedGeomagneticModel(core, crust)
    if ("sum", series) not in _STATE:
        _STATE["sum", series] = load_model_shc_combined(paths[0], paths[2])
    same = _STATE["sum", series].eval(time, coords, **options)
    ctx.close("core and lithosphere", total.eval(time, coords, **options), same, rtol=0, atol=1e-6)
    igrf = model("IGRF_LATEST").eval(time, coords)
    # the lithospheric field exceeds a few hundreds nT only locally
    ctx.close("total field", same, igrf, rtol=0, atol=2500)
    ctx.count(series)


@REG.family(quick=400, thorough=6000)
def earth(ctx, rng):
    """ known extent of the main field """
    year = float(rng.uniform(1900, 2030))
    igrf = model("IGRF_LATEST")
    coords = near_surface(rng, gen.tail(rng, 1, 20, 300))
    coords[:, 2] = 6371.2 + rng.uniform(-10, 20)
    field, frames = evaluated(rng, igrf, mjd(year), coords)
    inc, _, norm = vincdecnorm(field * [1, 1, 1])
    ctx.note(year=year, coords=coords, frames=frames)
    ctx.check(bool(np.all((norm > 20000) & (norm < 73000))), "intensity [nT]", got=norm)
    ctx.close("intensity", norm, vnorm(field), rtol=1e-14)
    lat = coords[:, 0]
    far = np.abs(lat) > 65
    ctx.check(bool(np.all(inc[far] * lat[far] > 0)), "field points downwards in the north", got=inc[far], lat=lat[far])
    ctx.check(bool(np.all(field[np.abs(lat) < 40, 0] > 5000)), "field points northwards close to the equator")
    # the eccentric dipole: the field a few radii away
    out = np.array(coords)
    out[:, 2] = 6371.2 * rng.uniform(8, 20)
    ratio = (out[:, 2] / 6371.2) ** 3 * vnorm(igrf.eval(mjd(year), out))
    ctx.check(bool(np.all((ratio > 25000) & (ratio < 72000))), "dipole moment", got=ratio)
    ctx.count("epochs")


@REG.family(quick=250, thorough=4000)
def apex_files(ctx, rng):
    """ generations of the quasi-dipole coefficients """
    names = [str(v) for v in rng.choice(APEX, 2, replace=False)]
    paths = [getattr(edata, n, None) for n in names]
    if not all(p and os.path.exists(p) for p in paths):
        raise SkipCase
    num = gen.tail(rng, 1, 20, 300)
    coords = near_surface(rng, num)
    coords[:, 2] = np.maximum(coords[:, 2], 6385)
    year = rng.uniform(1995, 2010, num)
    with_base = rng.random() < 0.5
    func = eval_qdlatlon_with_base_vectors if with_base else eval_qdlatlon
    one, two = (func(coords[:, 0], coords[:, 1], coords[:, 2], year, p) for p in paths)
    ctx.note(names=names, coords=coords, year=year)
    ctx.close("quasi-dipole latitude", one[0], two[0], rtol=0, atol=0.25)
    diff = np.asarray(geo.angdiff(np.asarray(one[1]), np.asarray(two[1])), float) * np.cos(np.radians(one[0]))
    ctx.close("quasi-dipole longitude", diff, np.zeros(num), rtol=0, atol=0.25)
    if with_base:
        for i in range(2, 7):
            ctx.close(f"base vectors {i}", one[i], two[i], rtol=0, atol=0.15)
    ctx.count(" ".join(names))


@REG.family(quick=120, thorough=2000)
def quasi_dipole_lines(ctx, rng):
    """ quasi-dipole coordinates are those of the apex of the traced field line """
    igrf = model("IGRF_LATEST")
    lat = float(rng.choice([-1, 1]) * rng.uniform(15, 68))
    lon, height = float(rng.uniform(-180, 180)), float(rng.choice([80.0, 110.0, 400.0, 800.0]))
    year = float(rng.uniform(1985, 2025))
    start = np.asarray(convert([lat, lon, height], 0, 1))
    cin, cout = (int(v) for v in rng.integers(0, 3, 2))
    step = 10.0 * min(6.0, 1 / np.cos(np.radians(lat)) ** 2)
    line, _ = trace_field_line(
        igrf, mjd(year), convert(start, 1, cin), input_coordinate_system=cin, output_coordinate_system=cout,
        trace_options={"step": step, "max_steps": 5000, "min_radius": float(start[2]) - 60, "max_radius": 3e6})
    line = np.asarray(convert(line, cout, 0))
    top = int(np.argmax(line[:, 2]))
    inc = float(vincdecnorm(igrf.eval(mjd(year), start))[0])
    ctx.note(start=start, year=year, frames=(cin, cout), points=len(line), apex=line[top])
    if not 0 < top < len(line) - 1:
        raise SkipCase
    ground, apex = 6371.009 + height, 6371.009 + line[top, 2]
    want = np.sign(inc) * np.degrees(np.arccos(np.sqrt(ground / max(apex, ground))))
    path = getattr(edata, str(rng.choice(["APEX_2030", "APEX_LATEST", "APEX_2025"])))
    qdlat, qdlon = eval_qdlatlon(*start, year, path)
    tolerance = 1.2 if abs(want) > 12 else 3.0
    ctx.close("quasi-dipole latitude and the apex of the field line", float(qdlat), float(want), rtol=0, atol=tolerance)
    there = np.asarray(convert(line[top], 0, 1))
    if there[2] < 3 * 6371.2:
        _, other = eval_qdlatlon(*there, year, path)
        diff = float(geo.angdiff(float(qdlon), float(other))) * np.cos(np.radians(float(qdlat)))
        ctx.close("quasi-dipole longitude along the field line", diff, 0.0, rtol=0, atol=1.5)
        ctx.count("longitudes")
    ctx.count("field_lines")


@REG.family(quick=30, thorough=100)
def inventory(ctx, rng):
    """ names of the shipped files """
    igrf = [n for n in ("IGRF12", "IGRF13", "IGRF14", "IGRF15") if hasattr(edata, n)]
    latest = model("IGRF_LATEST")
    for name in igrf:
        ctx.check(float(latest.validity[1]) >= float(model(name).validity[1]), "latest IGRF", name=name)
        ctx.check(float(latest.validity[0]) <= float(model(name).validity[0]), "latest IGRF", name=name)
    ctx.check(str(edata.IGRF_LATEST_VERSION) in os.path.basename(edata.IGRF_LATEST), "version of the latest IGRF")
    for name in ("CHAOS7_CORE_X18", "CHAOS8_CORE_V1"):
        if hasattr(edata, name):
            ctx.check(float(model("CHAOS_CORE_LATEST").validity[1]) >= float(model(name).validity[1]), "latest CHAOS", name=name)
    for name in ("CHAOS7_CORE_X18_PREDICTION", "CHAOS8_CORE_V1_PREDICTION"):
        if hasattr(edata, name):
            ctx.check(float(model("CHAOS_CORE_PREDICTION_LATEST").validity[1]) >= float(model(name).validity[1]),
                      "latest CHAOS prediction", name=name)
    for name in STATIC:
        item = model(name)
        ctx.check(tuple(item.validity) == (-np.inf, np.inf) or float(item.validity[0]) < float(item.validity[1]),
                  "static model has a validity", name=name, got=item.validity)
    # the latest quasi-dipole coefficients are defined in the most recent epochs
    num = 5
    coords = near_surface(rng, num)
    year = np.full(num, float(rng.uniform(1980, 2030)))
    lat, lon = eval_qdlatlon(coords[:, 0], coords[:, 1], coords[:, 2] + 20, year, edata.APEX_LATEST)
    default = eval_qdlatlon(coords[:, 0], coords[:, 1], coords[:, 2] + 20, year)
    ctx.check(bool(np.isfinite(lat).all() and np.isfinite(lon).all()), "latest quasi-dipole coefficients", year=year)
    ctx.equal("default quasi-dipole coefficients", default[0], lat)
    ctx.equal("default quasi-dipole coefficients", default[1], lon)
    # each name refers to the version it states
    for name in [n for n in dir(edata) if re.fullmatch(r"APEX_\d{4}", n)]:
        with open(getattr(edata, name), encoding="ascii") as fin:
            count = int(fin.readline().split()[0])
            grid = [float(v) for v in fin.readline().split()[:count]]
        ctx.equal("last epoch of " + name, grid[-1], float(name[-4:]))
    for name in [n for n in dir(edata) if re.fullmatch(r"IGRF\d{2}", n)]:
        end = float(mjd2000_to_decimal_year(float(model(name, CORE[name][0] if name in CORE else load_model_shc).validity[1])))
        ctx.close("validity of " + name, end, 2015.0 + 5 * (int(name[-2:]) - 11), rtol=0, atol=0.01)
    for name in [n for n in dir(edata) if re.fullmatch(r"WMM_\d{4}", n)]:
        start = float(mjd2000_to_decimal_year(float(model(name, load_model_wmm).validity[0])))
        ctx.close("validity of " + name, start, float(name[-4:]), rtol=0, atol=0.01)
    ctx.count("inventories")
