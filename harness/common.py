"""Shared machinery of the checks: the context that records events, verdicts and coverage."""
import collections
import json
import math
import traceback

import numpy as np


class TaskTimeout(Exception):
    """A single case took far longer than it ever should"""


class CpuHang(BaseException):
    """A single case burnt far more CPU time than it ever should"""


class Inconclusive(Exception):
    """The harness could not judge this case (never used to hide a failed oracle)"""


def short(obj, n=300):
    """A short printable form of an object, for replays and samples"""
    if isinstance(obj, np.ndarray):
        if obj.size > 12:
            txt = "array%s %s ... %s" % (obj.shape, np.array2string(obj.ravel()[:5]), np.array2string(obj.ravel()[-2:]))
        else:
            txt = "array%s %s" % (obj.shape, np.array2string(obj, precision=17))
        return txt[:n]
    if isinstance(obj, dict):
        return {str(k): short(v, n) for k, v in list(obj.items())[:12]}
    if isinstance(obj, (list, tuple)):
        return [short(v, n) for v in list(obj)[:12]]
    if isinstance(obj, (int, float, str, bool)) or obj is None:
        return obj if not isinstance(obj, str) else obj[:n]
    return repr(obj)[:n]


class Ctx:
    """What one case (one execution of one workload) observed"""

    MAX_FAIL = 6

    def __init__(self, prop, workload, index, seed, tier, scratch):
        self.prop = prop
        self.workload = workload
        self.index = index
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        ss = np.random.SeedSequence([seed & 0x7FFFFFFF, hash_str(prop), hash_str(workload), index])
        self.rng = np.random.default_rng(ss)
        self.events = collections.Counter()
        self.sigs = set()
        self.fails = []
        self.known = []
        self.samples = []
        self.trail = []
        self.suppress = 0

    # -- recording ---------------------------------------------------------
    def ev(self, kind, n=1):
        """Count an observed event"""
        self.events[kind] += n

    def seen(self, *sig):
        """Register a distinct situation that an oracle judged"""
        self.sigs.add("|".join(str(s) for s in sig))

    def note(self, *what):
        """Remember what the case did; only shown when the case fails, or as a sample"""
        if len(self.trail) < 60:
            self.trail.append(" ".join(str(short(w, 160)) for w in what))

    def fail(self, key, msg, **details):
        """An oracle observed a violation"""
        if len(self.fails) < self.MAX_FAIL:
            self.fails.append(
                dict(
                    key=key,
                    msg=str(msg)[:600],
                    details={k: short(v) for k, v in details.items()},
                    trail=list(self.trail[-30:]),
                    workload=self.workload,
                    index=self.index,
                )
            )

    # -- oracles -----------------------------------------------------------
    def true(self, key, cond, msg="", **details):
        """Check a condition"""
        self.events["verdict"] += 1
        if not bool(cond):
            self.fail(key, msg or "condition is false", **details)
            return False
        return True

    def close(self, key, got, want, rtol=1e-9, atol=1e-12, msg="", shape=True, **details):
        """Check that two arrays agree (NaN and inf must be in the same places)"""
        self.events["verdict"] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as exc:  # the result is not numeric at all
            self.fail(key, "%s: not numeric: %s %s" % (msg, exc, type(got)), got=got, want=want, **details)
            return False
        if shape and g.shape != w.shape:
            self.fail(key, "%s: shape %s, expected %s" % (msg, g.shape, w.shape), got=g, want=w, **details)
            return False
        if not shape and g.size != w.size:
            self.fail(key, "%s: size %s, expected %s" % (msg, g.shape, w.shape), got=g, want=w, **details)
            return False
        if not shape:
            g = g.reshape(w.shape)
        self.events["values"] += int(g.size)
        with np.errstate(all="ignore"):
            tol = np.asarray(atol) + rtol * np.abs(np.where(np.isfinite(w), w, 0.0))
            ok = (np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0]) if g.ndim else ()
            self.fail(
                key,
                "%s: %i of %i values differ, first at %s: got %r, expected %r"
                % (msg, len(bad), g.size, i, float(g[i]), float(w[i])),
                **details,
            )
            return False
        return True

    def equal(self, key, got, want, msg="", **details):
        """Check exact equality of arrays or objects, including dtype kind and shape"""
        self.events["verdict"] += 1
        if not same(got, want):
            self.fail(key, "%s: not equal" % msg, got=got, want=want, **details)
            return False
        return True

    def raises(self, key, excs, func, msg=""):
        """Check that an operation is rejected"""
        self.events["verdict"] += 1
        try:
            out = func()
        except excs:
            self.events["rejected"] += 1
            return True
        except TaskTimeout:
            raise
        except Exception as exc:
            self.fail(key, "%s: raised %s instead of %s" % (msg, type(exc).__name__, excs), exc=str(exc))
            return False
        self.fail(key, "%s: was accepted" % msg, result=out)
        return False


def hash_str(txt):
    """A stable hash of a string"""
    val = 2166136261
    for char in txt.encode():
        val = ((val ^ char) * 16777619) & 0xFFFFFFFF
    return val & 0x7FFFFFFF


def norm_arr(obj):
    """Normalise an array for comparison: native byte order, bytes for any string"""
    a = np.asarray(obj)
    if a.dtype.kind == "U":
        a = np.char.encode(a)
    if a.dtype.kind == "O":
        try:
            a = np.array([v.encode() if isinstance(v, str) else v for v in a.ravel()]).reshape(a.shape)
        except Exception:
            pass
    return a


def same(a, b):
    """Deep equality of plain data"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and set(a.keys()) == set(b.keys())
            and all(same(a[k], b[k]) for k in a)
        )
    aa, bb = norm_arr(a), norm_arr(b)
    if aa.shape != bb.shape:
        return False
    if aa.dtype.kind in "fc" or bb.dtype.kind in "fc":
        try:
            return bool(np.array_equal(aa, bb, equal_nan=True))
        except TypeError:
            return False
    return bool(np.array_equal(aa, bb))


def deep(obj):
    """A deep copy of plain data (dicts of arrays)"""
    if isinstance(obj, dict):
        return {k: deep(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [deep(v) for v in obj]
    if isinstance(obj, tuple):
        return tuple(deep(v) for v in obj)
    if isinstance(obj, np.ndarray):
        return obj.copy()
    return obj


def exc_info_text(exc):
    """Format an exception, with the innermost frames only"""
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-8:])[-2500:]


def jsonable(obj):
    """Make an object safe for json"""
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (np.integer,)):
        return int(obj)
    if isinstance(obj, (np.floating, float)):
        val = float(obj)
        return val if math.isfinite(val) else repr(val)
    if isinstance(obj, np.ndarray):
        return short(obj)
    if isinstance(obj, (int, str, bool)) or obj is None:
        return obj
    return repr(obj)[:300]


def dump(path, obj):
    """Write json"""
    with open(path, "w", encoding="utf-8") as fout:
        json.dump(jsonable(obj), fout, indent=1)
