"""Monitoring context: cases, comparisons, counters and violations."""
import hashlib
import json
import os
import time
import zlib

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


class Family:
    """ A workload family: a generator of monitored cases. """

    def __init__(self, func, quick, thorough, variant, once, weight):
        self.func = func
        self.name = func.__name__
        self.quick = quick
        self.thorough = thorough
        self.variant = variant
        self.once = once
        self.weight = weight


class Registry:
    """ Collection of the workload families of one property. """

    def __init__(self, rule, variant="plain", assumptions=(), level="exploration",
                 workers=6, env=None, budget=(110, 600), scale=6):
        self.rule = rule
        self.variant = variant
        self.assumptions = list(assumptions)
        self.level = level
        self.families = []
        self.workers = workers
        self.env = dict(env or {})
        self.budget = budget
        self.scale = scale  # multiplier of the quick counts

    def family(self, quick=100, thorough=None, variant=None, once=False, weight=1):
        """ Register a family. `once`: enumerated - executed by index, all of
        the indices 0..n-1 are always visited. """
        def _decorator(func):
            count = quick if once else quick * self.scale
            self.families.append(Family(
                func, count, max(thorough, count) if thorough is not None else
                (quick if once else quick * 15),
                variant or self.variant, once, weight,
            ))
            return func
        return _decorator


class Violation(Exception):
    """ Raised by failed monitors. """

    def __init__(self, message, data=None, finding=None):
        super().__init__(message)
        self.message = message
        self.data = data or {}
        self.finding = finding


class SkipCase(Exception):
    """ The generated case is outside of the property's domain. """


def plain(value, limit=40):
    """ JSON-able short representation. """
    if isinstance(value, np.ndarray):
        if value.size > limit:
            return {
                "shape": list(value.shape), "dtype": str(value.dtype),
                "head": [plain(v) for v in value.ravel()[:limit].tolist()],
            }
        return [plain(v) for v in value.tolist()] if value.ndim else plain(value.item())
    if isinstance(value, np.longdouble):
        return plain(float(value))
    if isinstance(value, (np.generic,)):
        return plain(value.item())
    if isinstance(value, float):
        return value if np.isfinite(value) else repr(value)
    if isinstance(value, (bool, int, str, type(None))):
        return value if not isinstance(value, str) else value[:2000]
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in list(value.items())[:60]}
    if isinstance(value, (list, tuple, set)):
        return [plain(v) for v in list(value)[:60]]
    return repr(value)[:400]


class Ctx:
    """ Per worker monitoring context. """

    def __init__(self, prop, tier, seed, journal_path=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.counters = {}
        self.max_err = {}
        self.keys = set()
        self.cases = 0
        self.samples = []
        self._sampled = {}
        self._journal = None
        if journal_path:
            self._journal = os.open(journal_path, os.O_CREAT | os.O_RDWR | os.O_TRUNC)
        self._reset()

    # ---- case bookkeeping -------------------------------------------------
    def _reset(self):
        self._digest = hashlib.blake2b(digest_size=8)
        self._nontrivial = False
        self._notes = {}

    def begin(self, family, index):
        """ Start new case. """
        self.family = family
        self.index = index
        self._reset()
        self.journal()
        return np.random.default_rng(
            [self.seed, zlib.crc32(self.prop.encode()), zlib.crc32(family.encode()), index]
        )

    def journal(self, **notes):
        """ Record the operation which is about to be executed. """
        if self._journal is not None:
            data = json.dumps([
                self.family, self.index, plain(notes) if notes else {}
            ]).encode()[:6000]
            os.pwrite(self._journal, data.ljust(6001), 0)

    def end(self):
        """ Finish case. """
        self.cases += 1
        self.count("cases." + self.family)
        if self._nontrivial:
            self.keys.add((self.family + ":").encode() + self._digest.digest())
        if self._sampled.get(self.family, 0) < 1:
            self._sampled[self.family] = self._sampled.get(self.family, 0) + 1
            self.samples.append({
                "family": self.family, "index": self.index, **plain(self._notes),
            })

    def note(self, **notes):
        """ Record parameters of the case (shown in replays and samples). """
        self._notes.update(notes)

    @property
    def notes(self):
        """ get notes """
        return self._notes

    def count(self, name, num=1):
        """ increment counter """
        self.counters[name] = self.counters.get(name, 0) + num

    def key(self, *values):
        """ Add to the digest identifying the case. """
        for value in values:
            if isinstance(value, np.ndarray):
                self._digest.update(np.ascontiguousarray(value).tobytes())
            else:
                self._digest.update(repr(value).encode())
        self._nontrivial = True

    # ---- monitors ----------------------------------------------------------
    def fail(self, message, finding=None, **data):
        """ report violation """
        raise Violation(message, {**self._notes, **data}, finding)

    def check(self, condition, message, finding=None, **data):
        """ check condition """
        self.count("monitor." + self.family)
        if not bool(condition):
            self.fail(message, finding=finding, **data)

    def close(self, name, got, want, rtol=1e-12, atol=0.0, finding=None, shape=True, **data):
        """ Compare arrays with NaN equal NaN. atol may be an array. """
        got = np.asarray(got)
        want = np.asarray(want)
        self.count("monitor." + self.family)
        if shape and got.shape != want.shape:
            self.fail(f"{name}: result shape {got.shape} differs from expected {want.shape}",
                      finding=finding, **data)
        got_ = np.asarray(got, dtype=np.longdouble) if got.dtype != np.longdouble else got
        want_ = np.asarray(want, dtype=np.longdouble) if want.dtype != np.longdouble else want
        if got_.shape != want_.shape:
            got_, want_ = np.broadcast_arrays(got_, want_)
        if want_.size:
            fin = np.isfinite(want_)
            self._digest.update(np.asarray(want_[fin], dtype=float).tobytes())
            if np.any(want_[fin] != 0) or not fin.all():
                self._nontrivial = True
        with np.errstate(all="ignore"):
            same = (got_ == want_) | (np.isnan(got_) & np.isnan(want_))
            tol = rtol * np.abs(want_) + atol
            diff = np.abs(got_ - want_)
            ok = same | (diff <= tol)
        if ok.size:
            self.count("values_compared", int(ok.size))
            with np.errstate(all="ignore"):
                ratio = np.where(same, 0, diff / np.where(tol > 0, tol, np.nan))
                ratio = ratio[np.isfinite(ratio)]
            if ratio.size:
                worst = float(ratio.max())
                tag = f"{self.family}:{name}"
                if worst > self.max_err.get(tag, -1):
                    self.max_err[tag] = worst
        if not ok.all():
            idx = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok)))
            g, w = np.atleast_1d(got_)[idx], np.atleast_1d(want_)[idx]
            self.fail(
                f"{name}: got {float(g)!r} instead of {float(w)!r} at index {idx} "
                f"({int((~ok).sum())} of {ok.size} values differ)",
                finding=finding, got=got, want=np.asarray(want_, dtype=float), **data,
            )

    def equal(self, name, got, want, finding=None, **data):
        """ Compare bit for bit (NaN equal NaN). """
        got = np.asarray(got)
        want = np.asarray(want)
        self.count("monitor." + self.family)
        if got.shape != want.shape:
            self.fail(f"{name}: result shape {got.shape} differs from expected {want.shape}",
                      finding=finding, got=got, want=want, **data)
        if got.dtype != want.dtype:
            self.fail(f"{name}: result type {got.dtype} differs from expected {want.dtype}",
                      finding=finding, got=got, want=want, **data)
        self.count("values_compared", int(want.size))
        self._digest.update(np.ascontiguousarray(want).tobytes())
        if want.size:
            self._nontrivial = True
        if got.dtype.kind == "f":
            ok = (got == want) | (np.isnan(got) & np.isnan(want))
        else:
            ok = np.asarray(got == want)
        if not np.all(ok):
            idx = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok)))
            self.fail(
                f"{name}: got {np.atleast_1d(got)[idx]!r} instead of "
                f"{np.atleast_1d(want)[idx]!r} at index {idx} "
                f"({int((~ok).sum())} of {ok.size} values differ)",
                finding=finding, got=got, want=want, **data,
            )

    def raises(self, name, func, *args, exceptions=(Exception,), finding=None, **kwargs):
        """ Check that the call is rejected with an exception. """
        self.count("monitor." + self.family)
        self._digest.update(name.encode())
        self._nontrivial = True
        try:
            result = func(*args, **kwargs)
        except exceptions as error:
            self.count("rejected")
            return error
        return self.fail(f"{name}: the invalid request has been answered instead of rejected",
                         finding=finding, result=result)


def results(ctx):
    """ Worker results to be sent to the parent. """
    return {
        "counters": ctx.counters,
        "max_err": ctx.max_err,
        "keys": [k.hex() for k in ctx.keys],
        "cases": ctx.cases,
        "samples": ctx.samples,
    }


def now():
    """ monotonic time """
    return time.monotonic()
