#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
E = "eoxmagmod/eoxmagmod/"
M = E + "magnetic_model/"
Q = "qdipole/"
P = []

def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })

NATIVE = [E + n for n in (
    "pymm.c", "pyqd.c", "pysunpos.c", "pytimeconv.c", "pymm_aux.h",
    "include/spherical_harmonics.h", "include/fourier_series.h", "include/time_conversion.h")]

prop("C01", "Native calls are memory safe and never take the interpreter down",
     "For every combination of arguments (shapes, strides, sizes, types and values, NaN, infinities and dates outside any supported range included) each compiled function of the package either returns a result or raises a Python exception. It never reads or writes outside its buffers, never executes undefined behaviour, and never aborts, exits or hangs the calling process.",
     ["inputs"], "all argument tuples of every compiled entry point and of the public functions that reach them",
     "The tests call each function with a handful of well-formed arrays under an uninstrumented build; an out-of-bounds access, an unchecked shape, or a Fortran STOP on an unusual date leaves no trace there.",
     NATIVE + [Q + "apex.f90", Q + "apexsh.f90", Q + "eval_mlt.f90", Q + "eval_subsol.f90", Q + "eval_qdlatlon.f90", Q + "cqdipole.c"],
     [("argument casting and shape checks", E + "pymm_aux.h"), ("work-buffer sizing", E + "pymm_sheval.h _model_init"), ("Fortran status handling", Q + "cqdipole.c")],
     ["AddressSanitizer/UBSan reports", "exit status of the calling process"])
prop("C02", "Calls leak neither memory nor references",
     "Repeating any call of a compiled function, whether it succeeds, is rejected, or fails because memory cannot be allocated, leaves the memory held by the process and the reference counts of all objects passed in unchanged once its result is dropped.",
     ["inputs", "histories", "fault_sequences"], "all calls, successful and failing, repeated any number of times, and all allocation failures inside them",
     "Tests call each function once and never look at memory or reference counts; error exits and allocation failures are not exercised at all.",
     NATIVE, [("exit labels releasing arrays", E + "pymm_*.h"), ("work-buffer destructors", E + "pymm_sheval.h _model_destroy, pymm_sheval2dfs.h, pymm_shevaltemp.h")],
     ["sys.getrefcount of arguments", "allocated bytes after N repetitions"])
prop("C03", "Results depend only on the arguments, which are never modified",
     "A call returns bit for bit the same result whatever was called before it, in whichever order or process state, and whatever runs concurrently in other threads. It never modifies an array, model or coefficient object passed to it, it neither heeds nor changes the settings of the process (error handling and print options of numpy, random generators, warning filters, environment, time zone, locale, working directory), and every element of what it returns has been computed (none is left uninitialised).",
     ["histories", "schedules", "inputs"], "all sequences and thread interleavings of calls, with repeated and mixed models, coefficient files, times and locations",
     "Every test runs a call in a fixed order in one thread; caches of the last point, time or file and Fortran SAVE variables only go wrong for particular call sequences.",
     [E + "pymm_sheval.h", E + "pymm_shevaltemp.h", E + "pymm_sheval2dfs.h", Q + "apexsh.f90", Q + "apex.f90", Q + "eval_qdlatlon.f90", Q + "eval_mlt.f90", M + "model.py", M + "coefficients.py"],
     [("last evaluated point cache", E + "pymm_sheval.h MODEL"), ("last epoch/file/altitude cache", Q + "apexsh.f90"), ("last date cache", Q + "apex.f90 COFRM")],
     ["return values", "argument bytes before and after"],
     [("clat_last/clon_last/crad_last", "last evaluated location", E + "pymm_sheval.h"), ("datafilelast/epochlast/altlastq", "last loaded QD coefficients", Q + "apexsh.f90")])
prop("C04", "Batch results equal point-by-point results for every array layout",
     "Evaluating an array of inputs gives, element by element, what evaluating each element alone gives, for any number of dimensions, any memory layout (C or Fortran order, slices, negative or zero strides, unaligned or byte-swapped data), any safely convertible data type and any permitted combination of scalar and array arguments (quasi-dipole coordinates and the magnetic local time take times less than a day apart for one epoch, which limits the agreement there to the change of the main field within a day). The result has the common shape of the inputs (empty arrays included).",
     ["inputs"], "all shapes, strides, data types and scalar/array combinations of the vectorised functions",
     "Tests evaluate contiguous float64 arrays of one or two dimensions; a neglected stride or a wrong recursion over dimensions is invisible there.",
     [E + "pymm_aux.h", E + "pymm_cconv.h", E + "pymm_sheval.h", E + "pymm_vrot_common.h", M + "util.py", E + "pyqd_eval_qdlatlon.h", E + "pysunpos.h"],
     [("recursive nD iteration", E + "pymm_aux.h ARRAY_DATA"), ("common shape extraction", E + "pymm_aux.h"), ("time/location broadcasting", M + "util.py")],
     ["return values and shapes"])
prop("C05", "Coordinate conversions follow the WGS84 geometry and invert each other",
     "Converting a point between geodetic (WGS84), geocentric spherical and Cartesian coordinates yields the coordinates of the same point in space to numerical precision, for every point from close to the Earth's centre to far space, poles, equator and date line included. Round trips return the original point, latitudes stay within [-90, 90] and longitudes within [-180, 180] when derived from Cartesian coordinates.",
     ["inputs"], "all finite points, heights and coordinate-system pairs",
     "Tests convert a modest sample with the same formulas re-implemented; special points, deep or distant points and repeated round trips are not covered.",
     [E + "include/geo_conversion.h", E + "pymm_cconv.h", E + "pymm_coord.h"],
     [("geodetic/Cartesian conversion", E + "include/geo_conversion.h"), ("dispatch over coordinate systems", E + "pymm_cconv.h")], ["convert()"])
prop("C06", "Vector rotations are isometric and agree with the coordinate conversions",
     "Rotating vectors between the local North-East-Up frames (spherical, geodetic) and the Cartesian frame preserves lengths and angles, the rotation and its counterpart are inverse to each other, and the rotated vector equals the one obtained from the local directions defined by the coordinate conversion at that location. Any latitude and longitude, including the poles, is handled.",
     ["inputs"], "all vectors, latitudes and longitudes",
     "Tests compare with the same rotation matrices on sampled angles; orthogonality and consistency with the conversions are not asserted.",
     [E + "pymm_vrot_sph2cart.h", E + "pymm_vrot_cart2sph.h", E + "pymm_vrot_sph2geod.h", E + "pymm_vrot_common.h", E + "include/geo_conversion.h", M + "util.py"],
     [("rotation by pairs of 2D rotations", E + "include/geo_conversion.h"), ("", E + "util.py vrotate")], ["vrot_*(), vrotate()"])
prop("C07", "Legendre, radial and longitude series equal their definitions",
     "For every latitude, degree, radius, reference radius and longitude the returned series equal the Schmidt semi-normalised associated Legendre functions and their latitude derivatives, the powers of the relative radius, and the cosines and sines of multiple longitudes. The potential and gradient sums assembled from these series equal the spherical harmonic sums they stand for, with the degree being limited as requested.",
     ["inputs"], "all latitudes (poles included), degrees, radii, longitudes, and both the fast and the exact longitude algorithms",
     "Tests use a few degrees and random angles, and compare with a recurrence of the same kind; the switch between the low- and high-degree algorithms and the neighbourhood of the poles are barely sampled.",
     [E + "include/spherical_harmonics.h", E + "pymm_legendre.h", E + "pymm_relradpow.h", E + "pymm_loncossin.h", E + "pymm_spharpot.h", E + "pymm_sphargrd.h"],
     [("Legendre recurrences", E + "include/spherical_harmonics.h"), ("series assembly", E + "pymm_spharpot.h, pymm_sphargrd.h")], ["legendre(), relradpow(), loncossin(), spharpot(), sphargrd()"])
prop("C08", "Spherical harmonic evaluation equals the defining series",
     "For any coefficients, degree limit, location, source type (internal or external), input and output coordinate system and scale factors, the evaluated potential and gradient equal the defining spherical harmonic series and its spatial derivatives in the requested local frame. The result is linear in the coefficients and in the scale factors, and terms above the requested degree do not contribute.",
     ["inputs"], "all coefficients, degrees, locations, frames, modes and scales",
     "Tests compare a fixed model and random points against one sibling implementation in the same package; an independent reference, poles, high degrees and per-component scales are missing.",
     [E + "pymm_sheval.h", E + "include/spherical_harmonics.h", E + "pymm_sphar_common.h"],
     [("per-point model evaluation", E + "pymm_sheval.h _model_eval"), ("", E + "include/spherical_harmonics.h shc_eval")], ["sheval()"])
prop("C09", "Potential and gradient describe one harmonic field in every frame",
     "At every location the gradient equals the spatial derivative of the potential, the field is free of divergence and curl outside its sources, and it is continuous across the date line, the poles and any internal switch of algorithm. Describing the same location in another coordinate system, or asking for potential and gradient together instead of separately, does not change the physical field.",
     ["inputs"], "all locations, coefficients, coordinate systems and evaluation modes",
     "Tests check values at sampled points one frame at a time; derivative relations between outputs and continuity are not asserted.",
     [E + "pymm_sheval.h", E + "include/spherical_harmonics.h", E + "include/geo_conversion.h", M + "model.py"],
     [("frame rotation of the gradient", E + "pymm_sheval.h"), ("pole handling", E + "include/spherical_harmonics.h")], ["sheval(), model.eval()"])
prop("C10", "Interval search and time-series interpolation honour node boundaries",
     "For any sorted node series and any value, the interval search returns the index of the interval containing the value with the requested side closed and -1 below the first node (NaN matching no interval). Interpolation returns the piecewise constant, piecewise linear or derivative value belonging to that interval, reproduces the node values, and outside the nodes yields NaN unless extrapolation is requested (the last piecewise constant value is kept after the last node).",
     ["inputs"], "all sorted node series (repeated nodes included), all query values incl. nodes, neighbours of nodes, NaN and infinities, all kinds and sides",
     "Tests sample a few node series and random queries; exact node hits at each position, single or repeated nodes and unusual layouts are not enumerated.",
     [E + "include/bisect.h", E + "include/interpolation.h", E + "pymm_bisect.h", E + "pymm_interp.h"],
     [("bisection", E + "include/bisect.h"), ("basis weights", E + "include/interpolation.h")], ["bisect(), interp()"])
prop("C11", "Time-dependent evaluation equals interpolating first, then evaluating",
     "Evaluating time-dependent coefficient sets directly for any times and locations equals interpolating all coefficients to each time, adding up contributions of all sets to the same term, and evaluating the resulting static model there. This holds whether time and location are scalars or arrays, for times on nodes, between nodes and outside of them, and for any order in which the times are visited.",
     ["inputs", "histories"], "all node series, coefficient sets, time sequences and locations",
     "Tests compare the two routes for a few models and random times; cached interpolation intervals only matter for special sequences of times, overlapping sets or node hits.",
     [E + "pymm_shevaltemp.h", M + "model.py", M + "coefficients.py"],
     [("interval cache and coefficient refresh", E + "pymm_shevaltemp.h"), ("fast path selection", M + "model.py")], ["model.eval()"],
     [("idx_last", "last interpolation interval", E + "pymm_shevaltemp.h")])
prop("C12", "2D Fourier series coefficients and models equal their defining sums",
     "For any series ranges, scales and time pairs the evaluated coefficients equal the defining two-dimensional Fourier sums, and the direct evaluation of a model given by such series equals evaluating the series first and the spherical harmonics afterwards.",
     ["inputs", "histories"], "all degree ranges (asymmetric ones included), scales, time pairs, locations and sequences of evaluations",
     "Tests use the one shape of the ionospheric model; asymmetric or partial degree ranges and cached time arguments are not exercised.",
     [E + "include/fourier_series.h", E + "pymm_fourier2d.h", E + "pymm_sheval2dfs.h"],
     [("cosine/sine tables", E + "include/fourier_series.h"), ("per-time caching", E + "pymm_sheval2dfs.h")], ["fourier2d(), sheval2dfs()"])
prop("C13", "Coefficient sets return the right coefficients for every time and degree",
     "For every time, the coefficients of a constant, time-dependent or combined set are those defined by its table (interpolated in the set's own time unit, in-order between nodes, extrapolated only where defined), placed at their degree and order, and limited to the requested degree range. The reported degree bounds and validity interval are those of the table, the validity of a combination is the intersection of its parts' intervals, and requested parameters, subsets and merges never alter the original set.",
     ["inputs", "histories"], "all tables, times, degree limits, unit conversions and combinations",
     "Tests query the packaged models at a few dates; degenerate tables, mixed time units, overlapping terms and degree windows are not sampled.",
     [M + "coefficients.py", M + "util.py", M + "parser_shc.py"],
     [("sparse coefficient tables", M + "coefficients.py"), ("", E + "pymm_interp.h")], ["coefficient objects' __call__, degree, min_degree, validity, is_valid"])
prop("C14", "Piecewise coefficient sets select exactly one segment for every time",
     "A coefficient set composed of consecutive time segments uses, for every time within its validity, the first listed segment valid at that time, whether times are evaluated one by one or as an array, and regardless of how the segments overlap or touch. Sets leaving a gap are rejected, validity spans all segments, and decomposing into single segments neither loses nor duplicates any instant. The interval helpers give each instant to the first listed interval covering it and intersect intervals without losing or inventing any.",
     ["inputs", "histories"], "all arrangements of touching, overlapping or nested segments, all times incl. segment boundaries, any order of the times",
     "Tests cover one two-segment model with times away from the common boundary.",
     [M + "coefficients.py", M + "util.py", M + "model.py"],
     [("segment decomposition and overlap resolution", M + "coefficients.py ComposedSHCoefficients"), ("per-segment masks", M + "model.py"), ("interval aggregation", M + "util.py")], ["composed set __call__, decompose(), model.eval()"])
prop("C15", "Model evaluation honours validity, degree limits and scaling options",
     "Evaluating a model at any times and locations gives the field of its coefficients at each time, NaN exactly where the time is outside the model's validity, with degree limits selecting exactly the terms in the requested range and scale factors applied once. Scalars and arrays of time and location combine consistently, and the result does not depend on which of the equivalent routes computed it.",
     ["inputs"], "all models, times (scalar, array, boundary, outside validity, NaN), locations, degree limits, coordinate systems and scales",
     "Tests evaluate the packaged models at random times mostly inside validity with default options.",
     [M + "model.py", M + "coefficients.py", M + "util.py"],
     [("validity masking", M + "model.py"), ("degree windows", M + "coefficients.py subset_degree")], ["model.eval()"])
prop("C16", "A composed model is the scaled sum of its components",
     "Evaluating a model composed of any number of component models with individual scales and parameters equals summing the separately evaluated and scaled components, in any input or output coordinate system and for any time and location combination. Its validity is the intersection of the components' validities and its required parameters are the union of theirs, and adding components never changes the models added.",
     ["inputs", "histories"], "all component lists, scales, nested compositions, parameters, frames and evaluation options",
     "Tests compose a few models in default frames; conversions of the common location and parameter forwarding are sampled sparsely.",
     [M + "model_composed.py", M + "model.py"],
     [("component loop", M + "model_composed.py")], ["ComposedGeomagneticModel.eval()"])
prop("C17", "Text model files are loaded without losing or altering any coefficient",
     "For every well-formed SHC, IGRF, WMM or EMM file the loader produces a model whose coefficients at the tabulated epochs are the tabulated numbers at their degree and order, interpolated between epochs as the file's spline order demands, and extrapolated by secular variation where the format defines it. Degree bounds, validity and epoch conversion follow the file, comments and spacing are irrelevant, and malformed files are rejected.",
     ["inputs", "configurations"], "all well-formed files of each format, and mutilated ones",
     "Tests load the packaged files only and compare a few selected values.",
     [M + "parser_shc.py", M + "parser_igrf.py", M + "parser_wmm.py", M + "parser_emm.py", M + "loader_shc.py", M + "loader_igrf.py", M + "loader_wmm.py", M + "loader_emm.py"],
     [("table parsing", M + "parser_shc.py"), ("model assembly", M + "loader_shc.py")], ["load_coeff_*(), load_model_*()"])
prop("C18", "Ionospheric models follow their file, the F10.7 scaling and the sheet height",
     "For every ionospheric coefficient file, the primary, secondary and total fields equal the Fourier and spherical harmonic series of the file evaluated in the tilted dipole frame at the magnetic universal time and season of each instant, multiplied by one plus the Wolf ratio times F10.7. The primary field uses the source geometry belonging to the side of the current sheet the location is on (the sheet itself belongs to the lower side), and single values and arrays of time, location and F10.7 combine consistently.",
     ["inputs"], "all files, locations on either side of and on the sheet, times, F10.7 values, scalar/array combinations and frames",
     "Tests use one file and mostly one combination of shapes.",
     [M + "model_mio.py", M + "coefficients_mio.py", M + "parser_mio.py", M + "loader_mio.py", E + "magnetic_time.py"],
     [("sheet switch", M + "model_mio.py"), ("dipole frame rotation", M + "model.py")], ["load_model_swarm_mio_*().eval()"])
prop("C19", "Magnetospheric CDF series are loaded, merged and sorted faithfully",
     "For every well-formed magnetospheric product file, each model contains exactly the file's coefficients at the file's epochs (converted to MJD2000), placed at the right degree and order and source side, with the slow and fast series each interpolated on its own time grid. Validity spans what the file provides, and consecutive files are joined keeping every record in time order, while files with different terms or out of order are rejected.",
     ["inputs", "configurations"], "all product files, variable sets, epoch layouts (duplicates and overlaps included) and both file generations",
     "Tests load three packaged files at sampled times.",
     [M + "loader_mma.py", M + "parser_mma.py"],
     [("CDF variable parsing", M + "parser_mma.py"), ("coefficient sorting", M + "loader_mma.py")], ["load_coeff_swarm_mma_*(), load_model_swarm_mma_*()"])
prop("C20", "Dipole coordinates and fields are one rigid rotation of geographic ones",
     "For any dipole axis, converting a location to dipole coordinates, rotating vectors back from the dipole frame and evaluating a model given in the dipole frame are the same rigid rotation: distances, field strengths and angles are preserved, the pole maps to the dipole pole, and evaluating rotated coefficients at the rotated location reproduces the geographic field.",
     ["inputs"], "all pole positions, locations, times and frames",
     "Tests use sampled poles and compare with the same matrices.",
     [E + "dipole_coords.py", E + "dipole.py", M + "model.py"],
     [("rotation matrix", E + "dipole_coords.py")], ["get_dipole_rotation_matrix(), convert_to_dipole(), vrot_from_dipole(), sheval_dipole()"])
prop("C21", "Time conversions agree with the calendar, are monotonic and invertible",
     "For every instant from antiquity to the far future, the decimal year, year fraction and MJD2000 values agree with the calendar (Julian until 1582, Gregorian afterwards): the whole part is the calendar year, the fraction is the elapsed part of that year. The conversions are continuous and strictly increasing across year ends, inverse to each other to rounding, and pass NaN and infinities through.",
     ["inputs"], "all times, in particular those around year boundaries, leap years and century years",
     "Tests sample random times in a few centuries and compare with a Python transcription of the same formulas.",
     [E + "include/time_conversion.h", E + "pytimeconv_decimal_year_to_mjd2000.h", E + "pytimeconv_mjd2000_to_decimal_year.h", E + "pytimeconv_mjd2000_to_year_fraction.h", E + "time_util.py"],
     [("day/year arithmetic", E + "include/time_conversion.h")], ["decimal_year_to_mjd2000(), mjd2000_to_decimal_year(), mjd2000_to_year_fraction()"])
prop("C22", "The Sun's position follows the ephemeris and local geometry",
     "For every time from 2000 to 2100 the declination and right ascension agree with the Sun's apparent position to 0.005 degrees; the hour angle is the rotation angle of the location relative to the Sun, and azimuth and zenith are the horizontal coordinates following from declination, hour angle and latitude, with parallax (and, where offered, refraction) applied to the zenith only. The original and the revised algorithm agree.",
     ["inputs"], "all times in range, locations, radii and time offsets",
     "Tests compare with recorded values of the same algorithm at sampled times.",
     [E + "include/sun_ephemeris.h", E + "pysunpos.h", E + "pysunpos_original.h", E + "solar_position.py"],
     [("ephemeris series", E + "include/sun_ephemeris.h sunpos5equat"), ("horizontal coordinates", E + "include/sun_ephemeris.h sunpos5eq2hor")], ["sunpos(), sunpos_original()"])
prop("C23", "Magnetic universal time is the dipole longitude of the subsolar point",
     "For every time and dipole pole, the magnetic universal time (in hours, between 0 and 24) is 12 hours minus the longitude of the subsolar point in the dipole frame (15 degrees per hour); a user-supplied subsolar point is used in place of the computed one. For dipole poles outside of the tropics the value increases, completing one full cycle per solar day without jumps other than the wrap at 24 hours.",
     ["inputs"], "all times, pole positions and user-supplied subsolar points",
     "Tests compare with a transcription of the formula at sampled times.",
     [E + "magnetic_time.py", E + "dipole_coords.py"], [("spherical triangle formula", E + "magnetic_time.py")], ["mjd2000_to_magnetic_universal_time()"])
prop("C24", "Quasi-dipole coordinates are a smooth function of place and epoch only",
     "For every location, epoch and coefficient file the quasi-dipole latitude lies within [-90, 90] and the longitude within [-180, 180], is periodic in geographic longitude, equals the apex expansion stored in the file interpolated linearly between its epochs and held constant outside of them, and does not depend on earlier calls, on other points of the batch or on whether base vectors are requested. The base vectors are the horizontal gradients of those coordinates and F is the magnitude of their cross product.",
     ["inputs", "histories", "configurations"], "all locations, altitudes, epochs, coefficient files and sequences of calls mixing them",
     "Tests replay recorded outputs for one table of points per coefficient file in a fixed order.",
     [Q + "apexsh.f90", Q + "eval_qdlatlon.f90", Q + "cqdipole.c", E + "quasi_dipole_coordinates.py", E + "pyqd_eval_qdlatlon.h"],
     [("epoch/file/altitude caches", Q + "apexsh.f90"), ("", Q + "apex.f90 CONVRT")], ["eval_qdlatlon(), eval_qdlatlon_with_base_vectors()"],
     [("loadflag, datafilelast, epochlast, altlastq", "module state caching the last evaluation", Q + "apexsh.f90")])
prop("C25", "Subsolar point and magnetic local time follow the Sun and the dipole pole",
     "For every time from 1950 to 2049 the subsolar latitude and longitude agree with the Sun's position within the algorithm's stated accuracy and move continuously, before and after 2000 and across midnights, year ends and leap days. Magnetic local time lies within [0, 24], increases by one hour per 15 degrees of quasi-dipole longitude, and is 12 hours where the quasi-dipole longitude equals the dipole longitude of the subsolar point for that epoch's dipole axis.",
     ["inputs", "histories"], "all times and quasi-dipole longitudes, any order of times in a batch",
     "Tests replay recorded outputs at sampled times.",
     [Q + "apex.f90", Q + "eval_mlt.f90", Q + "eval_subsol.f90", E + "pyqd_eval_mlt.h", E + "pyqd_eval_subsol.h"],
     [("calendar conversion", Q + "apex.f90 TMJD"), ("solar formulas", Q + "apex.f90 SUBSOL"), ("dipole axis", Q + "apex.f90 COFRM, DYPOL")], ["eval_subsol(), eval_mlt()"])
prop("C26", "Traced field lines follow the model field and stay within their limits",
     "For every model, time and start point the traced line contains the start point, consecutive points are connected along the local field direction (both ways from the start) in increasing arc length, the returned field equals the model's field at each returned point, and tracing ends only when the line reaches the configured height limits or step count. Input and output coordinate systems only change the representation of the same line.",
     ["inputs"], "all models, start points, times, step and limit settings and coordinate systems",
     "Tests trace a few lines and check their end points only.",
     [M + "field_lines.py"], [("step-wise tracing", M + "field_lines.py")], ["trace_field_line()"])
prop("C27", "Vector norm, inclination and declination helpers are consistent",
     "For every vector or array of vectors the norm is the Euclidean length, inclination and declination are the angles of the vector below the horizon and east of north in degrees, and the vector rotation helper agrees with the coordinate systems it names; zero and vertical vectors give finite values.",
     ["inputs"], "all vectors, array shapes, and coordinate system pairs",
     "Tests use random vectors away from degenerate directions.",
     [E + "util.py"], [("", E + "util.py vincdecnorm, vnorm, vrotate")], ["vnorm(), vincdecnorm(), vrotate()"])
prop("C28", "Invalid requests are rejected with an exception, never answered",
     "A call whose arrays have incompatible shapes or wrong trailing dimensions, whose options are not among the documented ones, whose file is missing or malformed, or which lacks a required parameter raises an exception and returns nothing, and leaves the package usable with unchanged results afterwards.",
     ["inputs", "fault_sequences"], "all invalid argument combinations of the public functions, models and loaders",
     "Tests check a few selected invalid calls.",
     [E + "pymm_aux.h", E + "pymm_coord.h", E + "quasi_dipole_coordinates.py", M + "model.py", M + "parser_shc.py", M + "coefficients.py"],
     [("shape and option checks", E + "pymm_aux.h")], ["raised exception types"])
prop("C29", "The shipped models describe one and the same Earth",
     "The models and coefficient files shipped with the package and selected by the names of the data module are mutually consistent: generations of IGRF agree in their definitive epochs, core models (IGRF, WMM, CHAOS, SIFM) agree within tens to hundreds of nT over their common validity, lithospheric models are correlated and of the same strength, predictions continue their models without a jump, the intensity and direction of the main field have their known extent, generations of quasi-dipole coefficients agree in common epochs, the quasi-dipole coordinates are those of the apex of the field line traced in the main field, and each name refers to the version it states, the names of the latest versions to the most recent ones.",
     ["inputs"], "all shipped models and files, places, common epochs, coordinate systems and degree limits",
     "Tests compare each of the models with its own recorded values at a few points, never with the other ones.",
     [E + "data/__init__.py", M + "loader_shc.py", M + "loader_igrf.py", M + "loader_wmm.py", M + "field_lines.py", E + "quasi_dipole_coordinates.py"],
     [("names of the files", E + "data/__init__.py"), ("loaders", M + "loader_shc.py")],
     ["field vectors", "quasi-dipole coordinates", "field lines", "model validity"])
prop("C30", "The quasi-dipole C library keeps its contract and inverts itself",
     "Each function of the quasi-dipole library's C interface, called in any order with any number of points, returns zero and exactly the values of the Python functions, writes all its n_data outputs and nothing else, leaves the inputs unchanged, and returns a non-zero status for a missing, malformed or over-long coefficient file without harming the calls which follow; names up to the stated maximum length are accepted; the quasi-dipole coordinates converted back to the geographic ones reproduce the input to the requested precision with the reported error, and the modified apex coordinates and base vectors satisfy their defining and reciprocal relations.",
     ["inputs", "histories", "fault_sequences"], "all sequences of C calls, numbers of points, places, epochs, heights, reference heights and coefficient files",
     "Tests call the library through Python with valid files only, and never its inverse and apex conversions.",
     [Q + "cqdipole.c", Q + "cqdipole.h", Q + "apexsh.f90", Q + "eval_qdlatlon.f90"],
     [("C interface", Q + "cqdipole.c"), ("inverse and apex conversions", Q + "apexsh.f90")],
     ["status codes", "outputs, inputs and their surroundings", "round trips"])
prop("C31", "Copied and serialised models are equivalent to their originals",
     "A model or a coefficient set of any kind which is copied, deep-copied, or pickled and restored, in the same or in another process, has the same type, validity, degrees and parameters as its original and evaluates to the same field, coefficients and field lines for every time, place and option; making the copy leaves the original unchanged, and extending a deep copy or a restored composed model does not affect the original, nor the other way round.",
     ["inputs", "histories"], "all kinds of models and coefficient sets, ways of copying, times, places and options",
     "Tests never copy or serialise a model.",
     [M + "model.py", M + "model_mio.py", M + "model_composed.py", M + "coefficients.py", M + "coefficients_mio.py"],
     [("construction of the models", M + "model_composed.py"), ("construction of the coefficient sets", M + "coefficients.py")],
     ["field vectors", "model description"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for item in P:
        for part in item["anchors"]["mechanism"]:
            part["name"] = part.get("name") or "implementation"
    with open(out, "w") as fout:
        for item in P:
            fout.write(json.dumps(item) + "\n")
    print(len(P), "properties")
