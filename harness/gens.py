"""Generators of ensembles, each with an independent reference model of what it represents.

A Case holds the data given to the constructor, so that the whole ensemble and a fresh
ensemble holding only one of its rows can be built from the same numbers, and reference
functions pdf(i, x), cdf(i, x), ppf(i, q) of row i computed without qp.
"""
import numpy as np
import scipy.stats as sps
from scipy.interpolate import BSpline, splrep
from scipy.special import voigt_profile

import qp
from common import deep
from qp.packing_utils import PackingType


class Case:
    """An ensemble to build, and what it should be"""

    def __init__(self, kind, variant, gen, meta, obj, ref, lo, hi, knots=None, exact_knots=False, **extra):
        self.kind = kind
        self.variant = variant
        self.gen = gen
        self.meta = meta
        self.obj = obj
        self.ref = ref
        self.lo = lo
        self.hi = hi
        self.knots = np.sort(np.unique(np.ravel(knots))) if knots is not None else None
        self.exact_knots = exact_knots
        self.npdf = len(next(iter(obj.values())))
        self.extra = extra

    @property
    def label(self):
        return "%s/%s" % (self.kind, self.variant)

    def data(self, rows=None):
        """A private copy of the constructor data, for all or some rows"""
        out = deep(self.meta)
        for key, val in self.obj.items():
            out[key] = np.array(val if rows is None else val[rows])
        return out

    def make(self, ancil=None, rows=None):
        return qp.Ensemble(self.gen, data=self.data(rows), ancil=ancil)

    def single(self, i):
        return self.make(rows=[i])

    def subset(self, rows):
        """The case holding some of the rows"""
        rows = np.asarray(rows)
        out = Case.__new__(Case)
        out.__dict__.update(self.__dict__)
        out.obj = {k: v[rows] for k, v in self.obj.items()}
        out.npdf = len(rows)
        out.ref = self.ref.subset(rows)
        return out

    def width(self):
        return self.hi - self.lo

    def points(self, rng, n, outside=0.2, on_knots=False):
        """Evaluation points: inside and outside, unsorted, some duplicated, away from discontinuities"""
        w = self.width()
        x = rng.uniform(self.lo - outside * w, self.hi + outside * w, size=n)
        inner = rng.random(n) < 0.7
        x = np.where(inner, rng.uniform(self.lo, self.hi, size=n), x)
        if self.knots is not None:
            for _ in range(20):
                near = self._near(x)
                if not np.any(near):
                    break
                x = np.where(near, rng.uniform(self.lo, self.hi, size=n), x)
            if on_knots and self.exact_knots:
                pick = rng.random(n) < 0.4
                x = np.where(pick, rng.choice(self.knots, size=n), x)
        if n > 2:
            k = rng.integers(1, 1 + n // 3)
            x[rng.integers(0, n, size=k)] = x[rng.integers(0, n, size=k)]
        return x

    def _near(self, x):
        i = np.clip(np.searchsorted(self.knots, x), 1, len(self.knots) - 1)
        d = np.minimum(np.abs(x - self.knots[i]), np.abs(x - self.knots[i - 1]))
        return d < 1e-7 * self.width()

    def far_points(self, rng, n):
        """Points (-1: below, +1: above) far away from all of the support, up to infinity"""
        w = self.width()
        side = np.where(rng.random(n) < 0.5, -1, 1)
        dist = w * 10.0 ** rng.uniform(0.5, 9, size=n)
        x = np.where(side < 0, self.lo - dist, self.hi + dist)
        pick = rng.random(n)
        x = np.where(pick < 0.3, side * np.inf, np.where(pick < 0.4, side * 1e300, x))
        return x, side

    def ref_pdf(self, x):
        return np.array([self.ref.pdf(i, x) for i in range(self.npdf)])

    def ref_cdf(self, x):
        return np.array([self.ref.cdf(i, x) for i in range(self.npdf)])


# ---------------------------------------------------------------------------
# reference models


class RefHist:
    def __init__(self, bins, pdfs):
        self.bins = np.asarray(bins, float)
        w = np.diff(self.bins)
        pdfs = np.asarray(pdfs, float)
        self.vals = np.array([p / np.sum(p * w) for p in pdfs])
        self.cums = np.array([np.concatenate([[0.0], np.cumsum(p * w)]) for p in self.vals])

    def subset(self, rows):
        out = RefHist.__new__(RefHist)
        out.bins, out.vals, out.cums = self.bins, self.vals[rows], self.cums[rows]
        return out

    def pdf(self, i, x):
        x = np.asarray(x, float)
        idx = np.searchsorted(self.bins, x, side="right") - 1
        ok = (idx >= 0) & (idx < len(self.bins) - 1)
        return np.where(ok, self.vals[i][np.clip(idx, 0, len(self.bins) - 2)], 0.0)

    def cdf(self, i, x):
        return np.interp(x, self.bins, self.cums[i], left=0.0, right=1.0)

    def ppf(self, i, q):
        return np.interp(q, self.cums[i], self.bins)

    def moment(self, i, m):
        cen = 0.5 * (self.bins[1:] + self.bins[:-1])
        return np.sum(cen**m * self.vals[i] * np.diff(self.bins))

    def span(self, i):
        return self.bins[0], self.bins[-1]


class RefInterp:
    """Piecewise linear pdf; the cdf is linear between its values at the grid points"""

    def __init__(self, xs, ys):
        self.xs = [np.asarray(x, float) for x in xs]
        self.ys, self.cums = [], []
        for x, y in zip(self.xs, ys):
            y = np.asarray(y, float)
            cum = np.concatenate([[0.0], np.cumsum(0.5 * np.diff(x) * (y[1:] + y[:-1]))])
            self.ys.append(y / cum[-1])
            self.cums.append(cum / cum[-1])

    def subset(self, rows):
        out = RefInterp.__new__(RefInterp)
        out.xs = [self.xs[i] for i in rows]
        out.ys = [self.ys[i] for i in rows]
        out.cums = [self.cums[i] for i in rows]
        return out

    def pdf(self, i, x):
        return np.interp(x, self.xs[i], self.ys[i], left=0.0, right=0.0)

    def cdf(self, i, x):
        return np.interp(x, self.xs[i], self.cums[i], left=0.0, right=1.0)

    def ppf(self, i, q):
        return np.interp(q, self.cums[i], self.xs[i])

    def moment(self, i, m):
        x, y = self.xs[i], self.ys[i]
        f = x**m * y
        return np.sum(0.5 * np.diff(x) * (f[1:] + f[:-1]))

    def span(self, i):
        return self.xs[i][0], self.xs[i][-1]


class RefMixmod:
    def __init__(self, means, stds, weights):
        self.m, self.s = np.asarray(means, float), np.asarray(stds, float)
        w = np.asarray(weights, float)
        self.w = np.array([row / np.sum(row) for row in w])

    def subset(self, rows):
        return RefMixmod(self.m[rows], self.s[rows], self.w[rows])

    def pdf(self, i, x):
        x = np.asarray(x, float)
        out = np.zeros(x.shape)
        for m, s, w in zip(self.m[i], self.s[i], self.w[i]):
            out = out + w * np.exp(-0.5 * ((x - m) / s) ** 2) / (s * np.sqrt(2 * np.pi))
        return out

    def cdf(self, i, x):
        from scipy.special import ndtr

        x = np.asarray(x, float)
        out = np.zeros(x.shape)
        for m, s, w in zip(self.m[i], self.s[i], self.w[i]):
            out = out + w * ndtr((x - m) / s)
        return out

    def step(self):
        """The step of the documented 201 point grid used to invert the cdf"""
        return (np.max(self.m + 6 * self.s) - np.min(self.m - 6 * self.s)) / 200.0

    def mean(self, i):
        return np.sum(self.w[i] * self.m[i])

    def var(self, i):
        return np.sum(self.w[i] * (self.s[i] ** 2 + self.m[i] ** 2)) - self.mean(i) ** 2

    def span(self, i):
        return np.min(self.m[i] - 6 * self.s[i]), np.max(self.m[i] + 6 * self.s[i])


class RefSpline:
    def __init__(self, t, c, k):
        self.t, self.c, self.k = t, c, k
        self.spl = [BSpline(t[i], c[i], k, extrapolate=True) for i in range(len(t))]
        self.anti = [s.antiderivative() for s in self.spl]

    def subset(self, rows):
        return RefSpline(self.t[rows], self.c[rows], self.k)

    def pdf(self, i, x):
        return self.spl[i](np.asarray(x, float))

    def cdf(self, i, x):
        lo, hi = self.span(i)
        return self.anti[i](np.clip(np.asarray(x, float), lo, hi)) - self.anti[i](lo)

    def span(self, i):
        return self.t[i][0], self.t[i][-1]


class RefScipy:
    def __init__(self, dist, params):
        self.dist = dist
        self.params = params  # name -> (N, 1)
        npdf = len(next(iter(params.values())))
        self.frozen = [dist(**{k: float(v[i, 0]) for k, v in params.items()}) for i in range(npdf)]

    def subset(self, rows):
        return RefScipy(self.dist, {k: v[rows] for k, v in self.params.items()})

    def pdf(self, i, x):
        return self.frozen[i].pdf(x)

    def cdf(self, i, x):
        return self.frozen[i].cdf(x)

    def ppf(self, i, q):
        return self.frozen[i].ppf(q)

    def span(self, i):
        return self.frozen[i].support()


class RefQuant:
    """Quantiles; the pdf depends on the constructor"""

    def __init__(self, quants, locs, ctor):
        self.q0, self.l0 = np.asarray(quants, float), np.asarray(locs, float)
        self.ctor = ctor
        q, l = self.q0, self.l0
        if q[0] > 1e-15:
            first = l[:, 0] - q[0] * (l[:, 1] - l[:, 0]) / (q[1] - q[0])
            q, l = np.concatenate([[0.0], q]), np.concatenate([first[:, None], l], axis=1)
        if q[-1] < 1.0:
            last = l[:, -1] + (1.0 - q[-1]) * (l[:, -1] - l[:, -2]) / (q[-1] - q[-2])
            q, l = np.concatenate([q, [1.0]]), np.concatenate([l, last[:, None]], axis=1)
        self.q, self.l = q, l

    def subset(self, rows):
        return RefQuant(self.q0, self.l0[rows], self.ctor)

    def pdf(self, i, x, ctor=None):
        ctor = ctor or self.ctor
        x = np.asarray(x, float)
        q, l = self.q, self.l[i]
        slope = np.diff(q) / np.diff(l)
        mid = 0.5 * (l[1:] + l[:-1])
        if ctor == "piecewise_linear":
            return np.interp(x, mid, slope, left=0.0, right=0.0)
        if ctor == "cdf_spline_derivative":
            from scipy.interpolate import make_interp_spline

            der = make_interp_spline(l, q, k=3).derivative()
            return np.where((x >= l[0]) & (x <= l[-1]), der(x), 0.0)
        if ctor == "dual_spline_average":
            from scipy.interpolate import make_interp_spline

            p = np.zeros(len(l))
            for j in range(1, len(l)):
                p[j] = max(0.0, 2 * slope[j - 1] - p[j - 1])
            out = np.zeros(x.shape)
            for k in (0, 1):
                lk, pk = l[k::2], p[k::2]
                spl = make_interp_spline(lk, pk, k=3)
                out = out + 0.5 * np.where((x >= lk[0]) & (x <= lk[-1]), spl(x), 0.0)
            return out
        if ctor == "piecewise_constant":
            # the documented values at the (adjusted) locations, with the documented slope between
            idx = np.searchsorted(mid, x, side="right") - 1
            ok = (idx >= 0) & (idx < len(mid) - 1)
            j = np.clip(idx, 0, len(mid) - 2)
            second = np.concatenate([np.diff(slope), [0.0]])
            # the last derivative is stored as zero
            s_pad = np.concatenate([slope, [0.0]])
            sec = np.diff(s_pad)
            return np.where(ok, s_pad[j] + (x - mid[j]) * sec[j], 0.0) + 0.0 * second[0]
        raise KeyError(ctor)

    def span(self, i):
        return self.l[i][0], self.l[i][-1]


# ---------------------------------------------------------------------------
# generators


def _scale(rng):
    """A position and a width of the region of interest"""
    mode = rng.integers(0, 4)
    if mode == 0:
        return 0.0, 3.0
    w = 10.0 ** rng.uniform(-2, 2)
    if rng.random() < 0.08:
        # other units
        w = 10.0 ** float(rng.choice([rng.uniform(-8, -4), rng.uniform(3, 6)]))
    lo = w * rng.uniform(-3, 3)
    if rng.random() < 0.12:
        # far away from zero
        lo = lo * 10.0 ** rng.uniform(1, 2)
    return lo, w


def _grid(rng, n, style):
    """n increasing points; dyadic: exactly equal steps that are exactly representable"""
    if style == "dyadic":
        step = 2.0 ** rng.integers(-4, 1)
        return step * (np.arange(n) + int(rng.integers(-8, 8)))
    lo, w = _scale(rng)
    if style == "uniform":
        return np.linspace(lo, lo + w, n)
    steps = rng.uniform(0.3, 1.0, size=n - 1)
    steps *= np.where(rng.random(n - 1) < 0.3, 3.0, 1.0)
    if n > 2 and steps.max() / steps.min() < 1.2:
        steps[0] *= 2.0
    if n > 3:
        steps = half_regular(rng, steps)
    x = np.concatenate([[0.0], np.cumsum(steps)])
    return lo + w * x / x[-1]


def half_regular(rng, steps):
    """Sometimes steps which are regular in the places where one might look, but not elsewhere"""
    kind = int(rng.integers(0, 10))
    if kind == 0:
        # the first and the last step are the same
        steps[-1] = steps[0]
        steps[1] = 2.5 * steps[0]
    elif kind == 1:
        # all the same but one
        steps[:] = steps[0]
        steps[int(rng.integers(len(steps)))] *= float(rng.choice([0.4, 3.0]))
    elif kind == 2:
        # two parts
        steps[: len(steps) // 2] = steps[0]
        steps[len(steps) // 2 :] = 2.0 * steps[0]
    elif kind == 3:
        # symmetric
        steps = 0.5 * (steps + steps[::-1])
        steps[[0, -1]] *= 2.0
    return steps


def _values(rng, npdf, n, zeros=0.15, ends=None):
    """Non-negative values with positive total, of very different scale per row"""
    y = rng.gamma(1.0 + rng.random(), size=(npdf, n))
    y = np.where(rng.random((npdf, n)) < zeros, 0.0, y)
    y = y * 10.0 ** rng.uniform(-3, 3, size=(npdf, 1))
    if ends == "zero":
        y[:, 0] = 0.0
    bad = np.sum(y > 0, axis=1) < 2
    y[bad, 1:] = rng.uniform(0.5, 1.5, size=(int(bad.sum()), n - 1))
    return y


# Most cases are small. "rows": more PDFs, "grid": more points per PDF, than fit in 8 bits (in turn
# with those that do not fit in 7 bits, and a bit less)
SIZE = {"mode": None, "turn": 0}


def _large(rng):
    sizes = [257, 300, 401] if SIZE["turn"] % 2 == 0 else [70, 140, 200]
    return int(rng.choice(sizes))


def _npdf(rng, big=8):
    if SIZE["mode"] == "rows":
        return _large(rng)
    return int(rng.choice([1, 2, 3, 4, 5, 7, big]))


def _npts(rng, choices, npdf=None):
    """Number of points of a grid; sometimes related to the number of PDFs"""
    if SIZE["mode"] == "grid":
        return _large(rng)
    if npdf is not None and SIZE["mode"] != "rows":
        choices = [npdf, npdf + 1] + list(choices)
    return int(rng.choice(choices))


def gen_hist(rng, npdf=None, style=None):
    npdf = npdf or _npdf(rng)
    style = style or rng.choice(["dyadic", "uniform", "irregular"])
    n = _npts(rng, [3, 5, 8, 13], npdf) + 1
    n = max(n, 3)
    bins = _grid(rng, n, style)
    pdfs = _values(rng, npdf, n - 1)
    return Case("hist", style, qp.hist, dict(bins=bins), dict(pdfs=pdfs), RefHist(bins, pdfs), bins[0], bins[-1],
                knots=bins, exact_knots=style != "uniform")


def gen_interp(rng, npdf=None, style=None, ends=None):
    npdf = npdf or _npdf(rng)
    style = style or rng.choice(["dyadic", "uniform", "irregular"])
    ends = ends or rng.choice(["zero", "any"])
    n = max(_npts(rng, [4, 6, 11], npdf), 3)
    x = _grid(rng, n, style)
    y = _values(rng, npdf, n, ends=ends)
    return Case("interp", style + "-" + str(ends), qp.interp, dict(xvals=x), dict(yvals=y),
                RefInterp([x] * npdf, y), x[0], x[-1], knots=x, exact_knots=True, ends=ends)


def gen_irr(rng, npdf=None, style=None):
    npdf = npdf or _npdf(rng)
    n = max(_npts(rng, [4, 6, 11], npdf), 3)
    style = style or rng.choice(["shared", "own"])
    base = _grid(rng, n, "irregular")
    w = base[-1] - base[0]
    xs = np.tile(base, (npdf, 1))
    if style == "own":
        steps = np.diff(base) * rng.uniform(0.4, 1.0, size=(npdf, n - 1))
        start = base[0] + w * rng.uniform(0, 0.2, size=(npdf, 1))
        xs = np.concatenate([start, start + np.cumsum(steps, axis=1)], axis=1)
    y = _values(rng, npdf, n)
    return Case("interp_irregular", style, qp.interp_irregular, {}, dict(xvals=xs, yvals=y), RefInterp(xs, y),
                xs.min(), xs.max(), knots=xs, exact_knots=True)


def gen_mixmod(rng, npdf=None, ncomp=None):
    npdf = npdf or _npdf(rng)
    k = ncomp or (int(rng.choice([1, 2, 3, npdf])) if SIZE["mode"] != "rows" else int(rng.choice([1, 2, 3])))
    lo, w = _scale(rng)
    means = lo + w * rng.random((npdf, k))
    stds = w * rng.uniform(0.05, 0.4, size=(npdf, k))
    weights = rng.uniform(0.1, 1.0, size=(npdf, k)) * 10.0 ** rng.uniform(-2, 2, size=(npdf, 1))
    if k > 1:
        zero = rng.random((npdf, k)) < 0.1
        zero[:, 0] = False
        weights = np.where(zero, 0.0, weights)
        if rng.random() < 0.3:
            # components that hardly count
            light = rng.random((npdf, k)) < 0.4
            light[:, 0] = False
            weights = np.where(light, weights * 10.0 ** rng.uniform(-6, -2, size=(npdf, k)), weights)
    return Case("mixmod", "k%i" % min(k, 3), qp.mixmod, {}, dict(means=means, stds=stds, weights=weights),
                RefMixmod(means, stds, weights), lo - 0.3 * w, lo + 1.3 * w)


def gen_spline(rng, npdf=None):
    npdf = npdf or _npdf(rng, 6)
    n = _npts(rng, [7, 9, 12])
    lo, w = _scale(rng)
    ts, cs, ns = [], [], []
    own = rng.random() < 0.5
    base = np.linspace(lo, lo + w, n)
    for _ in range(npdf):
        x = base
        if own:
            x = lo + w * np.concatenate([[0.0], np.sort(rng.uniform(0.02, 0.98, size=n - 2)), [1.0]])
            x = 0.5 * (x + base)
        y = 0.1 + np.exp(-0.5 * ((x - lo - w * rng.uniform(0.3, 0.7)) / (0.2 * w)) ** 2) * rng.uniform(0.5, 2)
        t, c, k = splrep(x, y)
        area = BSpline(t, c, k).antiderivative()
        c = c / (area(x[-1]) - area(x[0]))
        ts.append(t)
        cs.append(c)
        ns.append([k])
    t, c, k = np.vstack(ts), np.vstack(cs), np.array(ns)
    return Case("spline", "own" if own else "shared", qp.spline, {}, dict(splx=t, sply=c, spln=k), RefSpline(t, c, 3), lo, lo + w)


CTORS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]


def gen_quant(rng, npdf=None, ctor=None, ends=None):
    npdf = npdf or _npdf(rng, 6)
    ctor = ctor or str(rng.choice(CTORS))
    nq = _npts(rng, [9, 11, 14])
    ends = ends or str(rng.choice(["none", "low", "high", "both"]))
    q = np.cumsum(rng.uniform(0.5, 1.5, size=nq + 2))
    q = (q - q[0]) / (q[-1] - q[0])
    q = q[1:-1]
    if ends in ("low", "both"):
        q = np.concatenate([[0.0], q])
    if ends in ("high", "both"):
        q = np.concatenate([q, [1.0]])
    lo, w = _scale(rng)
    base = sps.norm.ppf(np.clip(q, 0.005, 0.995)) / 5.2 + 0.5
    if SIZE["mode"] == "grid":
        base = q + 0.1 * np.sin(3.0 * q)
    steps = np.diff(base) * rng.uniform(0.8, 1.25, size=(npdf, len(q) - 1))
    start = rng.uniform(0, 0.2, size=(npdf, 1))
    locs = lo + w * np.concatenate([start, start + np.cumsum(steps, axis=1)], axis=1)
    ref = RefQuant(q, locs, ctor)
    meta = dict(quants=q)
    if not (ctor == "piecewise_linear" and rng.random() < 0.5):
        meta["pdf_constructor_name"] = ctor
    mids = 0.5 * (ref.l[:, 1:] + ref.l[:, :-1])
    return Case("quant", "%s-%s" % (ctor, ends), qp.quant, meta, dict(locs=locs), ref, ref.l.min(), ref.l.max(),
                knots=np.concatenate([ref.l.ravel(), mids.ravel()]), ctor=ctor)


def ref_unpack(packed, ymax, log_floor, linear):
    """Independent unpacking"""
    p = np.asarray(packed, float)
    ymax = np.asarray(ymax, float).reshape(-1, 1)
    if linear:
        return ymax * p / 255.0
    val = ymax * 10.0 ** (-log_floor * (p / 255.0 - 1.0))
    return np.where(p == 0, 0.0, val)


def gen_packed(rng, npdf=None, linear=None):
    npdf = npdf or _npdf(rng)
    linear = bool(rng.random() < 0.5) if linear is None else linear
    n = max(_npts(rng, [5, 9, 14], npdf), 3)
    x = _grid(rng, n, str(rng.choice(["dyadic", "uniform", "irregular"])))
    packed = rng.integers(0, 256, size=(npdf, n)).astype(np.uint8)
    packed[:, 0] = np.where(rng.random(npdf) < 0.5, 0, packed[:, 0])
    packed[np.arange(npdf), rng.integers(1, n, size=npdf)] = 255
    ymax = 10.0 ** rng.uniform(-2, 2, size=(npdf, 1))
    meta = dict(xvals=x, packing_type=PackingType.linear_from_rowmax if linear else PackingType.log_from_rowmax)
    floor = -3.0
    if not linear:
        floor = float(rng.choice([-3.0, -2.0, -4.5]))
        meta["log_floor"] = floor
    ys = ref_unpack(packed, ymax, floor, linear)
    return Case("packed_interp", "linear" if linear else "log", qp.packed_interp, meta, dict(ypacked=packed, ymax=ymax),
                RefInterp([x] * npdf, ys), x[0], x[-1], knots=x, exact_knots=True)


def ref_basis(xvals, mu, nmu, sig, nsig, nv, cut=1e-5):
    """Independent voigt dictionary"""
    cols = []
    for m in np.linspace(mu[0], mu[1], nmu):
        for s in np.linspace(sig[0], sig[1], nsig):
            for g in np.linspace(0, 0.5, nv):
                v = voigt_profile(xvals - m, s, g)
                v = np.where(v >= cut, v, 0.0)
                cols.append(v / np.sqrt(np.sum(v**2)))
    return np.array(cols).T


def gen_sparse(rng, npdf=None):
    npdf = npdf or _npdf(rng, 6)
    n = _npts(rng, [15, 21])
    lo = rng.uniform(-1, 1)
    w = rng.uniform(2, 4)
    x = np.linspace(lo, lo + w, n)
    nmu, nsig, nv, nsp = 5, 2, 2, int(rng.choice([3, 5]))
    mu = np.array([lo + 0.2 * w, lo + 0.8 * w])
    sig = np.array([w / 15.0, w / 8.0])
    dims = np.array([nmu, nsig, nv, 32001, nsp])
    basis = ref_basis(x, mu, nmu, sig, nsig, nv)
    ind = np.array([rng.permutation(nmu * nsig * nv)[:nsp] for _ in range(npdf)])
    coef = rng.integers(1000, 32000, size=(npdf, nsp))
    code = (coef.astype("i8") << 16) | ind.astype("i8")
    wts = coef / 32000.0
    wts[:, 0] = 1.0
    ys = np.array([basis[:, ind[i]] @ wts[i] for i in range(npdf)])
    return Case("sparse", "n%i" % nsp, qp.sparse, dict(xvals=x, mu=mu, sig=sig, dims=dims), dict(sparse_indices=code),
                RefInterp([x] * npdf, ys), x[0], x[-1], knots=x, exact_knots=True)


SCIPY_SHAPES = {
    "norm": {},
    "uniform": {},
    "expon": {},
    "logistic": {},
    "laplace": {},
    "gumbel_r": {},
    "gamma": dict(a=(1.2, 6.0)),
    "beta": dict(a=(1.2, 4.0), b=(1.2, 4.0)),
    "lognorm": dict(s=(0.2, 0.8)),
    "weibull_min": dict(c=(1.1, 3.0)),
    "t": dict(df=(3.0, 12.0)),
    "triang": dict(c=(0.1, 0.9)),
    "skewnorm": dict(a=(-3.0, 3.0)),
}


def gen_scipy(rng, npdf=None, name=None):
    npdf = npdf or _npdf(rng)
    name = name or str(rng.choice(["norm", "norm", "norm", "gamma", "beta", "expon", "uniform", "lognorm", "logistic", "triang"]))
    lo, w = _scale(rng)
    params = {}
    for key, (a, b) in SCIPY_SHAPES[name].items():
        params[key] = rng.uniform(a, b, size=(npdf, 1))
    params["loc"] = lo + w * rng.random((npdf, 1))
    params["scale"] = w * rng.uniform(0.1, 0.5, size=(npdf, 1))
    ref = RefScipy(getattr(sps, name), params)
    lo2 = min(f.ppf(0.01) for f in ref.frozen)
    hi2 = max(f.ppf(0.99) for f in ref.frozen)
    knots = None
    if name in ("expon", "uniform", "triang", "beta"):
        knots = np.array([[f.support()[0], min(f.support()[1], hi2 + w)] for f in ref.frozen])
    return Case(name, "scipy", getattr(qp.stats, name), {}, params, ref, lo2, hi2, knots=knots, scipy=name)


GENS = {
    "hist": gen_hist,
    "interp": gen_interp,
    "irr": gen_irr,
    "mixmod": gen_mixmod,
    "spline": gen_spline,
    "quant": gen_quant,
    "packed": gen_packed,
    "sparse": gen_sparse,
    "scipy": gen_scipy,
}
ALL_KINDS = list(GENS)


def gen_case(ctx, kinds=None, **kw):
    """Pick a kind so that consecutive cases go through all of them"""
    kinds = kinds or ALL_KINDS
    if SIZE["mode"] == "rows":
        # the ppf of splines is found numerically, one value at a time
        kinds = [k for k in kinds if k != "spline"]
    kind = kinds[ctx.index % len(kinds)]
    case = GENS[kind](ctx.rng, **kw)
    ctx.note("case", case.label, "npdf", case.npdf, {k: np.shape(v) for k, v in case.obj.items()})
    return case


def gen_ancil(rng, npdf):
    """Ancillary data that tells the rows apart"""
    anc = dict(idx=np.arange(npdf) * 10 + int(rng.integers(0, 5)), z=rng.normal(size=npdf))
    if rng.random() < 0.5:
        anc["mat"] = rng.normal(size=(npdf, 3))
    if rng.random() < 0.3:
        anc["flag"] = rng.random(npdf) < 0.5
    return anc


def too_slow(case, method, npts):
    """Splines look for each quantile, and for the median of each PDF before a logarithm of the cdf"""
    return case.kind == "spline" and method in ("ppf", "isf", "logcdf", "logsf") and case.npdf * npts > 4000
