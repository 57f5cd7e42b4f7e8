"""C26: scipy-based ensembles behave exactly like scipy.stats, PDF by PDF."""
import os

import numpy as np
import scipy.stats as sps
from scipy.stats._distr_params import distcont

import qp
from common import TaskTimeout
from gens import gen_ancil
from lib import snapshot, state_equal

DISTS = [(name, par) for name, par in distcont if isinstance(name, str)]
NAMES = sorted({name for name, _ in DISTS})
SLOW = {"ksone", "kstwo", "kappa4", "levy_stable", "studentized_range", "recipinvgauss", "vonmises", "vonmises_line"}


def shapes_of(dist):
    return [s.strip() for s in (dist.shapes or "").split(",") if s.strip()]


def parameters(rng, name, par, npdf):
    """Parameters of npdf PDFs, all different"""
    dist = getattr(sps, name)
    names = shapes_of(dist)
    rows = []
    for _ in range(npdf):
        row = list(par)
        for _ in range(5):
            new = [float(v) * (1 + rng.uniform(-0.15, 0.15)) for v in par]
            if name not in SLOW and np.all(dist._argcheck(*new)) and not any(float(v).is_integer() and abs(v) > 5 for v in par):
                row = new
                break
        rows.append(row)
    out = {key: np.array([[float(r[j])] for r in rows]) for j, key in enumerate(names)}
    if name in ("irwinhall",):
        out = {key: np.array([[int(r[j])] for r in rows]) for j, key in enumerate(names)}
    style = int(rng.integers(0, 4))
    if style != 1 or not names:
        out["loc"] = rng.normal(size=(npdf, 1)) * 10.0 ** rng.uniform(-1, 1)
    if style != 2 or not names:
        out["scale"] = rng.uniform(0.3, 3.0, size=(npdf, 1)) * 10.0 ** rng.uniform(-1, 1)
    return out


class Case:
    """An ensemble, and the same made with scipy only"""

    def __init__(self, name, params):
        self.name = name
        self.dist = getattr(sps, name)
        self.params = params
        self.npdf = len(next(iter(params.values())))
        self.frozen = [self.dist(**{k: v[i, 0] for k, v in params.items()}) for i in range(self.npdf)]

    def data(self):
        return {k: np.array(v) for k, v in self.params.items()}

    def make(self, ancil=None):
        return qp.Ensemble(getattr(qp.stats, self.name), data=self.data(), ancil=ancil)

    def subset(self, rows):
        return Case(self.name, {k: v[rows] for k, v in self.params.items()})

    def whole(self):
        return self.dist(**self.data())

    def bulk(self):
        """A range which holds most of each PDF"""
        lo = np.array([f.ppf(0.03) for f in self.frozen])
        hi = np.array([f.ppf(0.97) for f in self.frozen])
        return lo, hi


def agree(ctx, key, lab, got, want, also, rtol=1e-9, atol=1e-12):
    """Same as scipy, row by row or all at once"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.events["verdict"] += 1
    ctx.ev("values", got.size)
    if got.shape != want.shape:
        ctx.fail(key, "%s: shape %s, expected %s" % (lab, got.shape, want.shape))
        return

    def same(a):
        with np.errstate(all="ignore"):
            return (np.abs(got - a) <= atol + rtol * np.abs(a)) | (got == a) | (np.isnan(got) & np.isnan(a))

    ok = same(want)
    if not np.all(ok) and also is not None:
        also = np.asarray(also, float)
        if also.shape == got.shape:
            ok = ok | same(also)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        ctx.fail(key, "%s: %i values differ from scipy, first at %s: %r, expected %r" % (lab, len(bad), i, float(got[i]), float(want[i])))


def attempt(func):
    """The result, or the exception"""
    try:
        return func(), None
    except TaskTimeout:
        raise
    except Exception as exc:
        return None, exc


def compare(ctx, case, ens, lab, heavy):
    """All the methods"""
    rng = ctx.rng
    npdf = case.npdf
    lo, hi = case.bulk()
    width = np.max(hi) - np.min(lo)
    x = np.concatenate([rng.uniform(np.min(lo), np.max(hi), size=4), [np.min(lo) - 0.4 * width, np.max(hi) + 0.4 * width]])
    x = rng.permutation(x)
    table = rng.uniform(lo[:, None], hi[:, None], size=(npdf, 3))
    q = rng.uniform(0.02, 0.98, size=5)
    whole = case.whole()
    fro = case.frozen
    for name in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf"):
        for pts, layout in ((x, "grid"), (table, "table"), (float(table[0, 0]), "scalar"), (table[:, :1], "column")):
            full = np.broadcast_to(np.atleast_1d(pts), (npdf, np.shape(np.atleast_1d(pts))[-1]))
            want = np.array([getattr(f, name)(row) for f, row in zip(fro, full)])
            also, _ = attempt(lambda: getattr(whole, name)(full))
            got, exc = attempt(lambda: getattr(ens, name)(pts))
            if exc is not None:
                if also is not None:
                    ctx.fail(name, "%s: %s raised %r" % (lab, name, exc))
                continue
            agree(ctx, name, "%s: %s of a %s" % (lab, name, layout), got, want, also, atol=1e-10 if name.startswith("log") else 1e-13)
    if case.name != "studentized_range" or heavy:
        for name in ("ppf", "isf"):
            want = np.array([getattr(f, name)(q) for f in fro])
            also, _ = attempt(lambda: getattr(whole, name)(np.tile(q, (npdf, 1))))
            got, exc = attempt(lambda: getattr(ens, name)(q))
            if exc is not None:
                if also is not None:
                    ctx.fail(name, "%s: %s raised %r" % (lab, name, exc))
                continue
            agree(ctx, name, "%s: %s" % (lab, name), got, want, also, rtol=1e-8, atol=1e-9 * width)
        want = np.array([f.median() for f in fro]).reshape(-1, 1)
        agree(ctx, "median", "%s: median" % lab, ens.median(), want, attempt(whole.median)[0], rtol=1e-8, atol=1e-9 * width)
        got, want = ens.interval(0.7), [f.interval(0.7) for f in fro]
        for j in (0, 1):
            agree(ctx, "interval", "%s: interval" % lab, got[j], np.array([[w[j]] for w in want]), attempt(lambda: whole.interval(0.7)[j])[0], rtol=1e-8, atol=1e-9 * width)
        num = int(rng.integers(1, 5))
        got, exc = attempt(lambda: ens.rvs(size=num, random_state=11))
        want, wexc = attempt(lambda: whole.rvs(size=(npdf, num), random_state=11))
        if wexc is None:
            if exc is not None:
                ctx.fail("rvs", "%s: rvs raised %r" % (lab, exc))
            else:
                agree(ctx, "rvs", "%s: rvs" % lab, got, want, None)
    lims = np.sort(rng.uniform(np.min(lo), np.max(hi), size=2))
    want = np.array([f.cdf(lims[1]) - f.cdf(lims[0]) for f in fro]).reshape(-1, 1)
    agree(ctx, "integrate", "%s: integrate" % lab, ens.integrate(lims), want, whole.cdf(lims[1]) - whole.cdf(lims[0]), atol=1e-11)
    bins = np.sort(rng.uniform(np.min(lo), np.max(hi), size=5))
    got = ens.histogramize(bins)
    want = np.array([np.diff(f.cdf(bins)) for f in fro])
    agree(ctx, "histogramize", "%s: histogramize" % lab, got[1], want, np.diff(whole.cdf(bins[None, :]), axis=1), atol=1e-11)
    if not heavy:
        return
    if heavy == "mean":
        agree(ctx, "mean", "%s: mean" % lab, ens.mean(), np.array([[f.mean()] for f in fro]), None, rtol=1e-6, atol=1e-8 * width)
        return
    for name, args in (("mean", ()), ("var", ()), ("std", ()), ("entropy", ()), ("moment", (1,)), ("moment", (2,)), ("moment", (3,))):
        got, exc = attempt(lambda: getattr(ens, name)(*args))
        also, wexc = attempt(lambda: getattr(whole, name)(*args))
        want, sexc = attempt(lambda: np.array([getattr(f, name)(*args) for f in fro], dtype=float).reshape(-1, 1))
        if wexc is not None or sexc is not None:
            ctx.ev("scipy declines")
            continue
        if exc is not None:
            ctx.fail(name, "%s: %s%s raised %r" % (lab, name, args, exc))
            continue
        scale = np.max(np.abs(want[np.isfinite(want)])) if np.any(np.isfinite(want)) else 1.0
        agree(ctx, name, "%s: %s%s" % (lab, name, args), got, want, also, rtol=1e-6, atol=1e-8 * scale)
    got, exc = attempt(lambda: ens.stats(moments="mv"))
    want, wexc = attempt(lambda: [whole.stats(moments="mv"), [f.stats(moments="mv") for f in fro]])
    if wexc is None and ctx.true("stats", exc is None and len(got) == 2, "%s: stats raised %r" % (lab, exc)):
        for j in (0, 1):
            one = np.array([w[j] for w in want[1]], float).reshape(-1, 1)
            scale = np.max(np.abs(one[np.isfinite(one)])) if np.any(np.isfinite(one)) else 1.0
            agree(ctx, "stats", "%s: stats" % lab, got[j], one, want[0][j], rtol=1e-6, atol=1e-8 * scale)


def check_params(ctx, case, ens, lab):
    """npdf and object data are those of the parameters"""
    ctx.true("npdf", ens.npdf == case.npdf, "%s: npdf %s, expected %i" % (lab, ens.npdf, case.npdf))
    ctx.true("class", ens.gen_class.name == case.name and isinstance(ens.dist, type(case.dist)), "%s: class %s" % (lab, ens.gen_class.name))
    obj = ens.objdata()
    for key, val in case.params.items():
        if ctx.true("objdata", key in obj, "%s: no %s in objdata" % (lab, key)):
            ctx.close("objdata", obj[key], val, rtol=0, atol=0, msg="%s: %s in objdata" % (lab, key))


def methods(ctx):
    """Every method of every distribution"""
    rng = ctx.rng
    name, par = DISTS[ctx.index % len(DISTS)]
    npdf = int(rng.choice([1, 2, 3, 5]))
    if name in SLOW:
        npdf = min(npdf, 2)
    case = Case(name, parameters(rng, name, par, npdf))
    ens = case.make()
    lab = "%s x %i" % (name, npdf)
    ctx.note(lab, case.params)
    check_params(ctx, case, ens, lab)
    compare(ctx, case, ens, lab, heavy=name not in SLOW)
    ctx.seen("methods", name, "n1" if npdf == 1 else "n", ",".join(sorted(case.params)))


def moments(ctx):
    """Moments of the distributions for which scipy takes long"""
    rng = ctx.rng
    names = sorted(SLOW - {"studentized_range"}) if ctx.tier == "thorough" else ["kappa4", "kstwo", "vonmises"]
    name = names[ctx.index % len(names)]
    par = [p for n, p in DISTS if n == name][0]
    case = Case(name, parameters(rng, name, par, 2))
    compare(ctx, case, case.make(), name, heavy=True if ctx.tier == "thorough" else "mean")
    ctx.seen("moments", name)


TAILS = ["norm", "norm", "expon", "logistic", "laplace", "gumbel_r", "gumbel_l", "gamma", "lognorm", "weibull_min", "t", "cauchy", "halfnorm", "pareto", "rayleigh", "chi2", "exponweib", "genextreme", "invgauss", "loggamma"]


def tails(ctx):
    """The precision of the tails, where 1 - cdf would have none"""
    rng = ctx.rng
    name = TAILS[ctx.index % len(TAILS)]
    par = [p for n, p in DISTS if n == name][0]
    npdf = int(rng.choice([1, 2, 4]))
    case = Case(name, parameters(rng, name, par, npdf))
    ens = case.make()
    if rng.random() < 0.3:
        ens = ens[list(range(npdf))]
    whole = case.whole()
    tiny = 10.0 ** -rng.uniform(3, 60, size=4)
    calls = [("isf", tiny), ("ppf", tiny), ("isf", float(tiny[0])), ("ppf", 1e-12)]
    far = np.array([f.isf(float(tiny[1])) for f in case.frozen])
    near = np.array([f.ppf(float(tiny[2])) for f in case.frozen])
    for pts in (far, near):
        pts = pts[np.isfinite(pts)]
        if not pts.size:
            continue
        for meth in ("sf", "logsf", "cdf", "logcdf", "pdf", "logpdf"):
            calls.append((meth, np.array(pts)))
    for meth, pts in calls:
        full = np.broadcast_to(np.atleast_1d(pts), (npdf, np.size(pts)))
        want = np.array([getattr(f, meth)(row) for f, row in zip(case.frozen, full)])
        also, _ = attempt(lambda: getattr(whole, meth)(full))
        agree(ctx, meth, "%s: %s in the tail" % (name, meth), getattr(ens, meth)(pts), want, also, rtol=1e-7, atol=1e-300)
        ctx.ev("tails")
    ctx.seen("tails", name, npdf)


def history(ctx):
    """Parameters survive what is done with an ensemble"""
    rng = ctx.rng
    name, par = DISTS[int(rng.integers(len(DISTS)))]
    if name in SLOW:
        name, par = "norm", ()
    npdf = int(rng.choice([1, 2, 4, 6]))
    case = Case(name, parameters(rng, name, par, npdf))
    anc = dict(idx=np.arange(npdf))
    ens = case.make(ancil=anc)
    rows = np.arange(npdf)
    steps = []
    for _ in range(int(rng.integers(3, 7))):
        oper = str(rng.choice(["slice", "append", "concat", "file", "update", "evaluate", "dict", "iterator", "tables"]))
        steps.append(oper)
        if oper == "slice":
            keep = rng.integers(0, len(rows), size=int(rng.integers(1, 6)))
            ens, rows = ens[keep], rows[keep]
        elif oper == "append":
            more = rng.integers(0, npdf, size=int(rng.integers(1, 4)))
            ens.append(case.subset(more).make(ancil=dict(idx=more)))
            rows = np.concatenate([rows, more])
        elif oper == "concat":
            more = rng.integers(0, npdf, size=int(rng.integers(1, 4)))
            ens = qp.concatenate([case.subset(more).make(ancil=dict(idx=more)), ens])
            rows = np.concatenate([more, rows])
        elif oper == "file":
            ext = str(rng.choice(["hdf5", "fits", "pq"]))
            path = os.path.join(ctx.scratch, "h%i.%s" % (len(steps), ext))
            ens.write_to(path)
            ens = qp.read(path)
        elif oper == "tables":
            ens = qp.from_tables(ens.build_tables())
        elif oper == "dict":
            path = os.path.join(ctx.scratch, "d%i.hdf5" % len(steps))
            qp.write_dict(path, dict(one=ens, two=case.make()))
            ens = qp.read_dict(path)["one"]
        elif oper == "iterator":
            path = os.path.join(ctx.scratch, "i%i.hdf5" % len(steps))
            ens.write_to(path)
            parts = [part for _, _, part in qp.iterator(path, chunk_size=int(rng.integers(1, len(rows) + 1)))]
            ens = qp.concatenate(parts) if len(parts) > 1 else parts[0]
        elif oper == "update":
            rows = rng.integers(0, npdf, size=int(rng.integers(1, 6)))
            new = case.subset(rows).data()
            if rng.random() < 0.5:
                ens.update(new, dict(idx=rows))
            else:
                ens.update_objdata(new, dict(idx=rows))
        else:
            ens.pdf(np.linspace(0, 1, 3))
            ens.gridded(np.linspace(0, 1, len(rows)))
        sub = case.subset(rows)
        lab = "%s after %s" % (name, " ".join(steps))
        check_params(ctx, sub, ens, lab)
        lo, hi = sub.bulk()
        x = rng.uniform(np.min(lo), np.max(hi), size=3)
        whole = sub.whole()
        agree(ctx, "pdf", lab + ": pdf", ens.pdf(x), [f.pdf(x) for f in sub.frozen], whole.pdf(x[None, :]), rtol=1e-8)
        agree(ctx, "cdf", lab + ": cdf", ens.cdf(x), [f.cdf(x) for f in sub.frozen], whole.cdf(x[None, :]), rtol=1e-8)
        ctx.true("ancil", np.array_equal(np.ravel(ens.ancil["idx"]), rows), "%s: ancillary data %s, expected %s" % (lab, ens.ancil["idx"], rows))
        ctx.seen("history", name, oper)


def independent(ctx):
    """Ensembles of the same or of other distributions do not disturb each other"""
    rng = ctx.rng
    cases, enss = [], []
    for _ in range(int(rng.integers(3, 6))):
        name, par = DISTS[int(rng.integers(len(DISTS)))]
        if name in SLOW or rng.random() < 0.4:
            name, par = "norm", ()
        case = Case(name, parameters(rng, name, par, int(rng.integers(1, 4))))
        cases.append(case)
        enss.append(case.make(ancil=gen_ancil(rng, case.npdf)))
    snaps = []
    x = rng.normal(size=4)
    for case, ens in zip(cases, enss):
        snaps.append(snapshot(ens, x))
    for j in rng.permutation(len(enss)):
        enss[j].rvs(size=2)
        enss[j].ppf(np.array([0.3]))
        part = enss[j][0]
        part.update(cases[j].subset([0]).data())
        del part
    for case, ens, snap in zip(cases, enss, snaps):
        state_equal(ctx, "others", snapshot(ens, x), snap, "%s among other ensembles" % case.name)
        agree(ctx, "pdf", "%s among other ensembles: pdf" % case.name, ens.pdf(x), [f.pdf(x) for f in case.frozen], case.whole().pdf(x[None, :]), rtol=1e-8)
    # nothing of scipy itself has been changed
    for case in cases:
        ctx.true("scipy", type(getattr(sps, case.name)).__module__.startswith("scipy."), "scipy.stats.%s was replaced" % case.name)
    ctx.seen("independent", len(cases))


def types(ctx):
    """Parameters of several types: each keeps the value that is given"""
    rng = ctx.rng
    name = TAILS[ctx.index % len(TAILS)]
    par = [p for n, p in DISTS if n == name][0]
    npdf = int(rng.choice([1, 2, 4]))
    case = Case(name, parameters(rng, name, par, npdf))
    given = {}
    kinds = []
    for key, val in case.params.items():
        kind = str(rng.choice(["f8", "f4", ">f8", "whole" if key in ("loc", "scale") else "f8"]))
        if kind == "whole":
            given[key] = np.round(val).astype(str(rng.choice(["i8", "i4", "i2"])))
            if key == "scale":
                given[key] = np.maximum(given[key], 1).astype(given[key].dtype)
        else:
            given[key] = val.astype(kind)
        kinds.append(kind)
    if rng.random() < 0.3:
        # none of them is of double precision alone
        for key in given:
            if given[key].dtype.kind == "f":
                given[key] = given[key].astype("f4")
    if all(v.dtype == np.dtype("f4") for v in given.values()):
        return
    exact = {k: np.asarray(v, dtype=float) for k, v in given.items()}
    case = Case(name, exact)
    ens = qp.Ensemble(getattr(qp.stats, name), data={k: np.array(v) for k, v in given.items()})
    also = case.dist(**given)
    lab = "%s with %s" % (name, {k: str(v.dtype) for k, v in given.items()})
    check_params(ctx, case, ens, lab)
    lo, hi = case.bulk()
    x = rng.uniform(np.min(lo), np.max(hi), size=5)
    q = rng.uniform(0.02, 0.98, size=5)
    mixed = {v.dtype for v in given.values()} != {np.dtype("f4")}
    for meth, pts in (("pdf", x), ("cdf", x), ("sf", x), ("logpdf", x), ("ppf", q), ("isf", q)):
        want = np.array([getattr(f, meth)(pts) for f in case.frozen])
        agree(ctx, meth, "%s: %s" % (lab, meth), getattr(ens, meth)(pts), want, getattr(also, meth)(pts[None, :]), rtol=1e-8 if mixed else 1e-4, atol=1e-12)
    if npdf > 1:
        rows = rng.permutation(npdf)[: int(rng.integers(1, npdf))]
        part = ens[rows]
        check_params(ctx, case.subset(rows), part, lab + ", some rows")
    ctx.seen("types", name, tuple(kinds))


def registry(ctx):
    """All the continuous distributions are there"""
    want = [n for n in sps.__all__ if isinstance(getattr(sps, n), sps.rv_continuous)]
    fact = qp.instance()
    for name in want:
        ctx.true("registry", name in fact, "scipy.stats.%s is not in the factory" % name)
        cls = fact[name]
        ctx.true("registry", issubclass(cls, type(getattr(sps, name))), "%s is not a subclass of that of scipy" % name)
        ctx.true("registry", getattr(qp.stats, name + "_gen") is cls, "qp.stats.%s_gen" % name)
        ctx.seen("registry", name)


WORKLOADS = [("methods", methods), ("moments", moments), ("tails", tails), ("history", history), ("independent", independent), ("types", types), ("registry", registry)]
