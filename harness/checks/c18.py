"""C18: ensemble metrics equal their definitions, one value per PDF in order."""
import math

import numpy as np
from scipy import stats as sps
from scipy.integrate import quad
from scipy.optimize import minimize_scalar

import qp
from gens import ALL_KINDS, GENS, gen_case, gen_interp, gen_mixmod, gen_scipy
from qp.metrics import array_metrics
from qp.metrics.brier import Brier

M = qp.metrics
EPS = np.finfo(float).eps


def grid_of(limits, dx):
    """The documented grid"""
    num = int((limits[-1] - limits[0]) / dx)
    return np.linspace(limits[0], limits[1], num), num, (limits[-1] - limits[0]) / (num - 1)


def random_limits(rng, case):
    """Limits and resolutions of all sorts"""
    w = case.width()
    style = int(rng.integers(0, 4))
    if style == 0:
        return (float(case.lo), float(case.hi)), w / (int(rng.integers(3, 40)) + 0.5)
    if style == 1:
        lim = (float(case.lo - 0.3 * w), float(case.hi + 0.3 * w))
    elif style == 2:
        lim = (float(case.lo + 0.2 * w), float(case.lo + 0.7 * w))
    else:
        lim = (float(case.lo - rng.uniform(0, 0.5) * w), float(case.hi + rng.uniform(-0.2, 0.5) * w))
    # also resolutions that nearly divide the range
    num = int(rng.choice([2, 3, npdf_of(case), npdf_of(case) + 1, 10, 33]))
    return lim, (lim[1] - lim[0]) / max(num, 2) * (1.0 if rng.random() < 0.3 else 0.97)


def npdf_of(case):
    return max(case.npdf, 2)


def partner(ctx, case):
    """Another ensemble with as many PDFs over the same range, of any representation"""
    rng = ctx.rng
    style = int(rng.integers(0, 3))
    if style == 0:
        grid = np.linspace(case.lo - 0.01 * case.width(), case.hi + 0.01 * case.width(), int(rng.integers(4, 12)))
        y = rng.uniform(0.1, 1.0, size=(case.npdf, len(grid)))
        return qp.interp, dict(xvals=grid, yvals=y), "interp"
    if style == 1:
        bins = np.linspace(case.lo - 0.013 * case.width(), case.hi + 0.017 * case.width(), int(rng.integers(4, 9)))
        return qp.hist, dict(bins=bins, pdfs=rng.uniform(0.1, 1.0, size=(case.npdf, len(bins) - 1))), "hist"
    loc = rng.uniform(case.lo, case.hi, size=(case.npdf, 1))
    return qp.stats.norm, dict(loc=loc, scale=case.width() * rng.uniform(0.1, 0.5, size=(case.npdf, 1))), "norm"


def rows_of(gen, data, npdf, shared):
    """One-row ensembles"""
    out = []
    for i in range(npdf):
        one = {k: (v if k in shared else v[[i]]) for k, v in data.items()}
        out.append(qp.Ensemble(gen, data=one))
    return out


def tol_of(*arrs):
    top = max([float(np.max(np.abs(a))) for a in arrs if np.size(a)] + [0.0])
    return 1e-10 * top + 1e-300


def formulas(ctx):
    """The metrics of one or two ensembles, in any order and with changing limits"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    gen2, data2, kind2 = partner(ctx, case)
    other = qp.Ensemble(gen2, data={k: np.array(v) for k, v in data2.items()})
    # fresh ensembles of one row give the values the formulas are applied to
    ones = [case.single(i) for i in range(case.npdf)]
    twos = rows_of(gen2, data2, case.npdf, ("bins", "xvals"))
    lims = [random_limits(rng, case) for _ in range(2)]
    lims.append((lims[0][0], lims[0][1] * 0.71))
    if rng.random() < 0.3:
        lims.append(((0.0, 3.0), 0.01))
    for itry in range(int(rng.integers(4, 8))):
        limits, dx = lims[int(rng.integers(len(lims)))]
        xs, num, res = grid_of(limits, dx)
        if num < 2:
            continue
        defaults = limits == (0.0, 3.0) and dx == 0.01
        kwds = {} if defaults and rng.random() < 0.7 else dict(limits=limits, dx=dx)
        p1 = np.array([np.asarray(o.pdf(xs))[0] for o in ones])
        p2 = np.array([np.asarray(o.pdf(xs))[0] for o in twos])
        if not (np.all(np.isfinite(p1)) and np.all(np.isfinite(p2))):
            continue
        what = str(rng.choice(["moment", "kld", "rmse", "brier", "self"]))
        lab = "%s/%s %s with %i grid points" % (case.label, kind2, what, num)
        use_class = rng.random() < 0.5
        ctx.note(itry, what, limits, dx, "class" if use_class else "function")
        fkw = kwds if kwds else dict(limits=limits)
        if what == "moment":
            n = int(rng.integers(0, 4))
            got = M.MomentMetric(moment_order=n, **kwds).evaluate(ens) if use_class else M.calculate_moment(ens, n, **fkw)
            want = np.sum(p1 * xs**n, axis=1) * res
            ctx.close("moment", got, want, rtol=1e-9, atol=tol_of(p1 * np.abs(xs) ** n) * res * num, msg=lab + " of order %i" % n)
        elif what == "kld":
            want = res * np.sum(p1 * (np.log(np.clip(p1, EPS, None)) - np.log(np.clip(p2, EPS, None))), axis=1)
            got = M.KLDMetric(**kwds).evaluate(ens, other) if use_class else M.calculate_kld(ens, other, **fkw)
            size = res * np.sum(np.abs(p1) * (np.abs(np.log(np.clip(p1, EPS, None))) + np.abs(np.log(np.clip(p2, EPS, None)))), axis=1)
            margin = 1e-9 * size + 1e-12
            if np.all(want > margin):
                ctx.close("kld", got, want, rtol=1e-9, atol=margin, msg=lab)
            elif ctx.true("kld", np.shape(got) == (case.npdf,), "%s: shape %s" % (lab, np.shape(got))):
                # negative divergences are replaced, see the known finding
                ok = (np.abs(got - want) <= margin) | (np.abs(got - EPS) <= 1e-20)
                ctx.true("kld", np.all(ok), "%s: %s, expected %s" % (lab, got, want))
        elif what == "rmse":
            want = np.sqrt(np.sum((p1 - p2) ** 2, axis=1) / num)
            got = M.RMSEMetric(**kwds).evaluate(ens, other) if use_class else M.calculate_rmse(ens, other, **fkw)
            ctx.close("rmse", got, want, rtol=1e-9, atol=tol_of(p1, p2), msg=lab)
            ctx.close("symmetric", M.calculate_rmse(other, ens, **fkw), want, rtol=1e-9, atol=tol_of(p1, p2), msg=lab + " exchanged")
        elif what == "self":
            twin = case.make()
            ctx.close("self", M.calculate_rmse(ens, twin, **fkw), np.zeros(case.npdf), atol=tol_of(p1), msg=lab + ": rmse of identical ensembles")
            ctx.close("self", M.calculate_kld(ens, twin, **fkw), np.zeros(case.npdf), atol=1e-9, msg=lab + ": kld of identical ensembles")
            ctx.close("self", M.calculate_rmse(ens, ens, **fkw), np.zeros(case.npdf), atol=tol_of(p1), msg=lab + ": rmse with itself")
        else:
            truth = limits[0] + (limits[1] - limits[0]) * rng.random(case.npdf)
            pick = rng.random(case.npdf)
            truth = np.where(pick < 0.1, limits[0], np.where(pick > 0.9, limits[1], truth))
            pos = (truth - limits[0]) / res + 0.5
            truth = np.where(np.abs(pos - np.round(pos)) < 1e-6, limits[0] + 0.1 * res, truth)
            near = np.argmin(np.abs(xs[None, :] - truth[:, None]), axis=1)
            mark = np.zeros(p1.shape)
            mark[np.arange(case.npdf), near] = 1
            want = np.mean(np.sum((p1 - mark) ** 2, axis=1))
            form = int(rng.integers(0, 3))
            arg = [truth, truth.tolist(), truth.reshape(-1, 1)][form]
            got = M.BrierMetric(**kwds).evaluate(ens, arg) if use_class else M.calculate_brier(ens, arg, **fkw)
            ctx.close("brier", got, want, rtol=1e-9, atol=1e-12, msg=lab)
        ctx.ev("metrics")
        ctx.seen(case.label, what, "class" if use_class else "func", "n1" if case.npdf == 1 else "n")


def others(ctx):
    """Outlier rates, CDE loss"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    ones = [case.single(i) for i in range(case.npdf)]
    w = case.width()
    for _ in range(3):
        a, b = np.sort(case.points(rng, 2))
        want = np.array([float(np.ravel(o.cdf(a))[0]) + 1 - float(np.ravel(o.cdf(b))[0]) for o in ones])
        lab = "%s outlier rate" % case.label
        ctx.close("outlier", M.calculate_outlier_rate(ens, a, b), want, rtol=1e-9, atol=1e-11, msg=lab)
        ctx.close("outlier", M.OutlierMetric(cdf_limits=(a, b)).evaluate(ens), want, rtol=1e-9, atol=1e-11, msg=lab + " (class)")
        lo = case.lo - rng.uniform(0, 0.2) * w
        hi = case.hi + rng.uniform(0, 0.2) * w
        grid = np.linspace(lo, hi, int(rng.choice([2, 5, case.npdf + 1, 31])))
        if rng.random() < 0.3:
            grid = np.sort(case.points(rng, 12))
        p1 = np.array([np.asarray(o.pdf(grid))[0] for o in ones])
        truth = rng.uniform(lo - 0.1 * w, hi + 0.1 * w, size=case.npdf)
        truth = np.where(rng.random(case.npdf) < 0.2, rng.choice(grid, size=case.npdf), truth)
        near = np.array([min(range(len(grid)), key=lambda j: abs(grid[j] - t)) for t in truth])
        second = np.array([np.sort(np.abs(grid - t))[:2] for t in truth])
        if np.any((second[:, 1] - second[:, 0] < 1e-9 * w) & (second[:, 0] > 0)):
            continue
        area = np.sum(0.5 * np.diff(grid) * (p1[:, 1:] ** 2 + p1[:, :-1] ** 2), axis=1)
        val = p1[np.arange(case.npdf), near]
        want = np.mean(area) - 2 * np.mean(val)
        got = M.CDELossMetric(eval_grid=grid).evaluate(ens, truth if rng.random() < 0.5 else truth.tolist())
        ctx.close("cdeloss", got, want, rtol=1e-9, atol=1e-10 * (np.mean(np.abs(area)) + np.mean(np.abs(val))) + 1e-300, msg="%s cdeloss" % case.label)
        ctx.ev("metrics", 3)
    grid = np.linspace(0, 2.5, 301)
    if rng.random() < 0.2:
        p1 = np.array([np.asarray(o.pdf(grid))[0] for o in ones])
        truth = rng.uniform(0, 2.5, size=case.npdf)
        near = np.array([np.argmin(np.abs(grid - t)) for t in truth])
        area, val = np.sum(0.5 * np.diff(grid) * (p1[:, 1:] ** 2 + p1[:, :-1] ** 2), axis=1), p1[np.arange(case.npdf), near]
        ctx.close("cdeloss", M.CDELossMetric().evaluate(ens, truth), np.mean(area) - 2 * np.mean(val), rtol=1e-9, atol=1e-10 * (np.mean(np.abs(area)) + np.mean(np.abs(val))) + 1e-300, msg="%s cdeloss on the default grid" % case.label)
        a, b = 0.0001, 0.9999
        want = np.array([float(np.ravel(o.cdf(a))[0]) + 1 - float(np.ravel(o.cdf(b))[0]) for o in ones])
        ctx.close("outlier", M.OutlierMetric().evaluate(ens), want, rtol=1e-9, atol=1e-11, msg="%s outlier rate with the default limits" % case.label)
        ctx.close("outlier", M.calculate_outlier_rate(ens), want, rtol=1e-9, atol=1e-11, msg="%s outlier rate with the default limits (function)" % case.label)
    ctx.seen(case.label, "others", "n1" if case.npdf == 1 else "n")


def arrays(ctx):
    """The functions of plain arrays, and the Brier score"""
    rng = ctx.rng
    npdf, num = int(rng.choice([1, 2, 5])), int(rng.choice([2, 5, 9]))
    p, q = rng.gamma(1.0, size=(npdf, num)), rng.gamma(1.0, size=(npdf, num))
    p = np.where(rng.random(p.shape) < 0.2, 0.0, p)
    q = np.where(rng.random(q.shape) < 0.2, 0.0, q)
    dx = 10.0 ** rng.uniform(-2, 1)
    one = rng.random() < 0.3
    if one:
        p, q = p[0], q[0]
    log = lambda v: np.log(np.where(v < EPS, EPS, v))
    ctx.close("quick_kld", array_metrics.quick_kld(p, q, dx), dx * np.sum(p * (log(p) - log(q)), axis=-1), rtol=1e-9, atol=1e-9 * dx, msg="quick_kld")
    ctx.close("quick_kld", array_metrics.quick_kld(p, q), 0.01 * np.sum(p * (log(p) - log(q)), axis=-1), rtol=1e-9, atol=1e-11, msg="quick_kld with the default resolution")
    ctx.close("quick_rmse", array_metrics.quick_rmse(p, q, num), np.sqrt(np.mean((p - q) ** 2, axis=-1)), rtol=1e-9, msg="quick_rmse")
    grid = np.sort(rng.normal(size=num))
    n = int(rng.integers(0, 4))
    ctx.close("quick_moment", array_metrics.quick_moment(p, grid**n, dx), dx * np.sum(p * grid**n, axis=-1), rtol=1e-9, atol=1e-9, msg="quick_moment")
    # the Brier score of given bins
    pred = p / np.sum(p + 1e-9, axis=-1, keepdims=True)
    which = rng.integers(0, num, size=pred.shape[:-1])
    truth = np.zeros(pred.shape, dtype=int)
    np.put_along_axis(truth, np.expand_dims(which, -1), 1, axis=-1)
    want = np.mean(np.sum((pred - truth) ** 2, axis=-1))
    ctx.close("Brier", Brier(pred, truth).evaluate(), want, rtol=1e-10, msg="Brier of %s" % (pred.shape,))
    ctx.close("Brier", Brier(pred.tolist(), truth.tolist()).evaluate(), want, rtol=1e-10, msg="Brier of lists")
    ctx.close("Brier", Brier(pred, truth).accumulate(), want * (1 if one else npdf), rtol=1e-10, msg="Brier.accumulate of %s" % (pred.shape,))
    score = Brier(pred, truth)
    ctx.close("Brier", [score.evaluate(), score.evaluate()], [want, want], rtol=1e-10, msg="Brier evaluated twice")
    ctx.raises("Brier", ValueError, lambda: Brier(pred, truth[..., :-1]).evaluate(), "Brier with different shapes")
    ctx.raises("Brier", TypeError, lambda: Brier("hello", truth).evaluate(), "Brier of a string")
    ctx.raises("Brier", TypeError, lambda: Brier(pred, np.full(pred.shape, "a")).evaluate(), "Brier of strings")
    ctx.seen("arrays", npdf, num, one)


def risk(frozen, bounds):
    """The documented risk of an estimate"""

    def loss(v):
        return 1.0 - 1.0 / (1.0 + (v / 0.15) ** 2)

    def func(zp):
        return quad(lambda z: frozen(z) * loss((zp - z) / (1.0 + z)), bounds[0], bounds[1], limit=100)[0]

    return func


def rbpe(ctx):
    """Risk based point estimates"""
    rng = ctx.rng
    npdf = int(rng.integers(1, 3))
    kind = ["norm", "mixmod", "interp"][ctx.index % 3]
    loc = rng.uniform(0.2, 1.2, size=(npdf, 1))
    scale = rng.uniform(0.03, 0.35, size=(npdf, 1))
    loc = loc + 3.5 * scale
    # a wider second component on one side, so that the best estimate is at no special place
    means = np.hstack([loc, loc + scale * rng.uniform(-0.9, 0.9, size=(npdf, 1))])
    stds = np.hstack([scale, scale * rng.uniform(1.0, 1.4, size=(npdf, 1))])
    weights = np.hstack([np.ones((npdf, 1)), rng.uniform(0.2, 1.0, size=(npdf, 1))])
    if kind == "norm":
        ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=scale))
    elif kind == "mixmod":
        ens = qp.Ensemble(qp.mixmod, data=dict(means=means, stds=stds, weights=weights))
    else:
        x = np.linspace(-1, 5, 601)
        y = np.array([sum(w * sps.norm.pdf(x, a, b) for a, b, w in zip(*rows)) for rows in zip(means, stds, weights)])
        ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=y))
    style = int(rng.integers(0, 3))
    limits = [(np.inf, np.inf), (0.0, 3.0), (1.0, 1.5)][style]
    metric = M.RBPEMetric() if style == 0 else M.RBPEMetric(limits=limits)
    got = metric.evaluate(ens) if rng.random() < 0.5 else M.calculate_rbpe(ens, limits)
    lab = "rbpe of %s with limits %s" % (kind, limits)
    if not ctx.true("shape", np.shape(got) == (npdf,), "%s: shape %s" % (lab, np.shape(got))):
        return
    for i in range(npdf):
        row = ens[i]
        bounds = tuple(float(np.squeeze(row.ppf(q))) for q in (0.01, 0.99))
        if kind == "interp":
            dens = y[i] / np.trapz(y[i], x)
            func = risk(lambda z: float(np.interp(z, x, dens)), bounds)
        else:
            part = [(loc[i, 0], scale[i, 0], 1.0)] if kind == "norm" else list(zip(means[i], stds[i], weights[i] / weights[i].sum()))
            func = risk(lambda z: sum(w * math.exp(-0.5 * ((z - a) / b) ** 2) / (b * math.sqrt(2 * math.pi)) for a, b, w in part), bounds)
        lo, hi = (bounds if style == 0 else (max(limits[0], bounds[0]), min(limits[1], bounds[1])))
        if style == 2 and lo >= hi:
            # all allowed estimates are on one side
            want = 1.0 if loc[i, 0] < 1.0 else 1.5
            ctx.close("rbpe", got[i], want, atol=0.01, msg="%s: row %i" % (lab, i))
            continue
        trial = np.linspace(lo, hi, 13)
        vals = [func(z) for z in trial]
        best = minimize_scalar(func, bounds=(lo, hi), method="bounded", options=dict(xatol=1e-8))
        ctx.true("risk", func(got[i]) <= min(min(vals), best.fun) * (1 + 1e-3) + 1e-4, "%s: row %i: the risk of %r is %r, that of %r is %r" % (lab, i, got[i], func(got[i]), best.x, best.fun))
        ctx.close("rbpe", got[i], best.x, atol=1e-4 + 2e-3 * scale[i, 0], msg="%s: row %i" % (lab, i))
    ctx.seen("rbpe", kind, style, npdf)


def rejects(ctx):
    """Things that can not be compared"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    more = case.make(rows=list(range(case.npdf)) + [0])
    limits, dx = (float(case.lo), float(case.hi)), case.width() / 10.5
    lab = case.label
    ctx.raises("kld", ValueError, lambda: M.calculate_kld(ens, more, limits, dx), lab + ": kld of different numbers")
    ctx.raises("kld", ValueError, lambda: M.KLDMetric(limits=limits, dx=dx).evaluate(more, ens), lab + ": kld of different numbers")
    ctx.raises("rmse", ValueError, lambda: M.calculate_rmse(ens, more, limits, dx), lab + ": rmse of different numbers")
    truth = rng.uniform(limits[0], limits[1], size=case.npdf)
    ctx.raises("brier", ValueError, lambda: M.calculate_brier(more, truth, limits, dx), lab + ": brier with too few truth values")
    ctx.raises("brier", ValueError, lambda: M.calculate_brier(ens, np.append(truth, truth[0]), limits, dx), lab + ": brier with too many truth values")
    for val in (limits[0] - 0.1 * case.width(), limits[1] + 0.1 * case.width()):
        bad = truth.copy()
        bad[int(rng.integers(case.npdf))] = val
        ctx.raises("brier", ValueError, lambda: M.calculate_brier(ens, bad, limits, dx), lab + ": brier with a truth value outside the limits")
        ctx.raises("brier", ValueError, lambda: M.BrierMetric(limits=limits, dx=dx).accumulate(ens, bad), lab + ": brier with a truth value outside the limits")
    ctx.seen(lab, "rejects")


def known(ctx):
    """The known finding: one negative divergence replaces those of all PDFs"""
    loc, scale = np.array([[1.0], [0.0]]), np.array([[0.2], [0.3]])
    one = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=scale))
    two = qp.Ensemble(qp.stats.norm, data=dict(loc=np.array([[1.2], [0.2]]), scale=scale))
    got = M.calculate_kld(one, two, (0.0, 3.0), 0.01)
    alone = M.calculate_kld(one[0], two[0], (0.0, 3.0), 0.01)
    ctx.ev("verdict")
    ctx.seen("known", "kld-reset")
    if abs(got[0] - alone[0]) > 1e-9:
        ctx.known.append(dict(key="kld-reset", msg="kld of a PDF is %r together with one that has a negative divergence, %r alone" % (got[0], alone[0])))


WORKLOADS = [("formulas", formulas), ("others", others), ("arrays", arrays), ("rbpe", rbpe), ("rejects", rejects), ("known", known)]
