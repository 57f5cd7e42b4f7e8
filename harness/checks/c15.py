"""C15: conversion keeps what the target representation stores, PDF by PDF."""
import numpy as np
from scipy.interpolate import BSpline, splrep

import qp
from gens import ALL_KINDS, GENS, gen_ancil, gen_case, ref_unpack
from lib import close_vals, eval_tol, snapshot, state_equal
from monitors import fingerprint
from qp.packing_utils import PackingType

TARGETS = ["hist", "interp", "interp_irregular", "spline", "quant", "packed_interp"]


def grid_for(rng, case, num, cover=False):
    """A grid for the target, equally spaced or not, clear of the knots of the source"""
    w = case.width()
    lo, hi = case.lo - (0.3 * w if cover else 0.05 * w), case.hi + (0.3 * w if cover else 0.05 * w)
    if rng.random() < 0.4:
        grid = np.linspace(lo, hi, num)
    else:
        grid = np.concatenate([[0.0], np.cumsum(rng.uniform(0.3, 1.0, size=num - 1) * np.where(rng.random(num - 1) < 0.3, 3.0, 1.0))])
        grid = lo + (hi - lo) * grid / grid[-1]
    if case.knots is not None and not cover:
        near = np.min(np.abs(grid[:, None] - case.knots[None, :]), axis=1) < 1e-6 * w
        grid = np.where(near, grid + 2.7e-5 * w, grid)
    return grid


def both_ways(ctx, ens, target, **kwds):
    """The same conversion by Factory.convert and Ensemble.convert_to"""
    one = qp.convert(ens, target, **kwds)
    two = ens.convert_to(getattr(qp, target + "_gen"), **kwds)
    a, b = snapshot(one), snapshot(two)
    state_equal(ctx, "agree", b, a, "convert_to(%s) compared with convert()" % target)
    return one


def judge(ctx, case, ens, target, lab):
    rng = ctx.rng
    npdf = ens.npdf
    num = max(int(rng.choice([npdf, npdf + 1, 6, 9, 14])), 3)
    if target == "hist":
        bins = grid_for(rng, case, num, cover=rng.random() < 0.5)
        given = bins.copy()
        got = both_ways(ctx, ens, "hist", bins=bins)
        mass = np.diff(ens.cdf(given), axis=1)
        tot = mass.sum(axis=1)
        good = np.all(mass >= 0, axis=1) & (tot > 1e-6)
        ctx.true("bins", np.array_equal(np.squeeze(got.metadata()["bins"]), given), "%s: the bins are others than those given" % lab)
        if ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs from %i" % (lab, got.npdf, npdf)):
            ctx.close("mass", np.diff(got.cdf(given), axis=1)[good], (mass.T / tot).T[good], rtol=1e-8, atol=1e-11, msg="%s: integral of each bin" % lab, bins=given)
            mids = 0.5 * (given[1:] + given[:-1])
            dens = (mass.T / tot).T / np.diff(given)
            close_vals(ctx, "density", got.pdf(mids)[good], dens[good], "%s: pdf inside the bins" % lab, width=case.width())
    elif target in ("interp", "interp_irregular"):
        xvals = grid_for(rng, case, num)
        given = xvals.copy()
        got = both_ways(ctx, ens, target, xvals=xvals)
        y = ens.pdf(given)
        area = np.sum(0.5 * np.diff(given) * (y[:, 1:] + y[:, :-1]), axis=1)
        good = (area > 1e-6) & np.all(np.isfinite(y), axis=1)
        if ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs from %i" % (lab, got.npdf, npdf)):
            close_vals(ctx, "pdf", got.pdf(given)[good], (y.T / area).T[good], "%s: pdf at the grid points" % lab, width=case.width())
            own = got.objdata()["yvals"]
            close_vals(ctx, "stored", own[good], (y.T / area).T[good], "%s: stored values" % lab, width=case.width())
    elif target == "spline":
        xvals = grid_for(rng, case, max(num, 6))
        given = xvals.copy()
        y = ens.pdf(given)
        areas = []
        for row in y:
            t, c, k = splrep(given, row)
            anti = BSpline(t, c, k).antiderivative()
            areas.append(anti(given[-1]) - anti(given[0]))
        areas = np.array(areas)
        good = areas > 0.05
        got = both_ways(ctx, ens, "spline", xvals=xvals, method="xy")
        if ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs from %i" % (lab, got.npdf, npdf)):
            want = (y.T / areas).T[good]
            ctx.close("pdf", got.pdf(given)[good], want, rtol=2e-6, atol=1e-8 * (np.abs(want).max() if want.size else 1), msg="%s: pdf at the grid points" % lab)
    elif target == "quant":
        nq = int(rng.choice([npdf, 7, 11]))
        nq = max(nq, 5)
        quants = np.sort(rng.uniform(0.02, 0.98, size=nq))
        quants = np.clip(0.5 * quants + 0.5 * np.linspace(0.02, 0.98, nq), 0.02, 0.98)
        given = quants.copy()
        want = ens.ppf(given)
        kwds = {}
        got = both_ways(ctx, ens, "quant", quants=quants, **kwds)
        if ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs from %i" % (lab, got.npdf, npdf)):
            stored = got.objdata()["locs"]
            sq = np.squeeze(got.metadata()["quants"])
            where = np.searchsorted(sq, given - 1e-12)
            ctx.close("quants", sq[where], given, rtol=1e-12, atol=0, msg="%s: the quantiles given" % lab)
            ctx.close("locs", stored[:, where], want, rtol=1e-9, atol=1e-9 * case.width(), msg="%s: location of each quantile" % lab)
            wide = np.min(np.diff(want, axis=1), axis=1) > 1e-6 * case.width()
            if np.any(wide):
                ctx.close("ppf", got.ppf(given)[wide], want[wide], rtol=1e-7, atol=1e-7 * case.width(), msg="%s: ppf of each quantile" % lab)
    elif target == "packed_interp":
        xvals = grid_for(rng, case, num)
        given = xvals.copy()
        linear = bool(rng.random() < 0.5)
        kwds = dict(packing_type=PackingType.linear_from_rowmax if linear else PackingType.log_from_rowmax)
        floor = -3.0
        if not linear and rng.random() < 0.6:
            floor = float(rng.choice([-2.0, -4.0]))
            kwds["log_floor"] = floor
        y = ens.pdf(given)
        good = (y.max(axis=1) > 1e-8 / case.width()) & (y.min(axis=1) >= 0)
        if not np.all(good):
            return "skip"
        got = both_ways(ctx, ens, "packed_interp", xvals=xvals, **kwds)
        if ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs from %i" % (lab, got.npdf, npdf)):
            od = got.objdata()
            un = ref_unpack(od["ypacked"], od["ymax"], floor, linear)
            top = y.max(axis=1, keepdims=True)
            ctx.close("ymax", np.asarray(od["ymax"]).reshape(-1, 1), top, rtol=1e-9, atol=0, msg="%s: maximum of each row" % lab)
            if linear:
                ctx.true("packing", np.all(np.abs(un - y) <= top / 510.0 * (1 + 1e-6)), "%s: the packed values are off by %s of a step" % (lab, np.max(np.abs(un - y) / top) * 255))
            else:
                step = -floor / 255.0
                above = y > top * 10.0 ** (floor + step)
                err = np.abs(np.log10(np.where(above, un, 1.0) / np.where(above, y, 1.0)))
                ctx.true("packing", np.all(err <= 0.51 * step + 1e-9), "%s: the packed values are off by %s of a step" % (lab, err.max() / step))
                ctx.true("packing-low", np.all(un[~above] <= (top * 10.0 ** (floor + 2 * step) * np.ones(y.shape))[~above]), "%s: values below the floor" % lab)
            area = np.sum(0.5 * np.diff(given) * (un[:, 1:] + un[:, :-1]), axis=1)
            ok = area > 0
            close_vals(ctx, "pdf", got.pdf(given)[ok], (un.T / area).T[ok], "%s: pdf at the grid points" % lab, width=case.width())
    return "ok"


def convert(ctx):
    rng = ctx.rng
    target = TARGETS[(ctx.index // 9) % len(TARGETS)]
    case = gen_case(ctx)
    if target in ("quant", "hist", "spline") and case.kind == "spline" and case.npdf > 3:
        case = case.subset(np.arange(3))
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.3 else None
    ens = case.make(ancil=anc)
    lab = "%s to %s" % (case.label, target)
    ctx.note(lab, case.npdf)
    before = fingerprint(ens)
    if judge(ctx, case, ens, target, lab) == "skip":
        ctx.ev("not applicable")
        return
    ctx.true("source", fingerprint(ens) == before, "%s: the source was modified" % lab)
    # each PDF of the result depends on that PDF only
    i = int(rng.integers(case.npdf))
    grid = grid_for(rng, case, 7)
    if target == "hist":
        kwds = dict(bins=grid)
    elif target == "quant":
        kwds = dict(quants=np.linspace(0.1, 0.9, 7))
    elif target == "packed_interp":
        kwds = dict(xvals=grid, packing_type=PackingType.linear_from_rowmax)
    else:
        kwds = dict(xvals=grid)
    if target == "spline":
        kwds["method"] = "xy"
    if target != "spline" and not (target == "quant" and case.kind == "mixmod"):
        one = qp.convert(case.single(i), target, **kwds)
        allp = qp.convert(ens, target, **kwds)
        a, b = one.pdf(grid), allp.pdf(grid)[[i]]
        if np.all(np.isfinite(a)) and target != "packed_interp":
            ctx.close("alone", b, a, rtol=1e-7, atol=eval_tol(a, case.width()) * 100, msg="%s: PDF %i converted alone" % (lab, i))
        ctx.equal("order", allp.npdf, case.npdf, "%s: number of PDFs" % lab)
    ctx.ev("conversions", 2)
    ctx.seen(case.label, target, "n1" if case.npdf == 1 else "n")


def own_grids(ctx):
    """One grid for each PDF: what is stored per PDF keeps the grid that was given for it"""
    rng = ctx.rng
    case = gen_case(ctx)
    if case.npdf > 6:
        case = case.subset(np.arange(6))
    target = ["interp_irregular", "spline"][(ctx.index // 9) % 2]
    if target == "spline" and case.kind == "spline" and case.npdf > 3:
        case = case.subset(np.arange(3))
    ens = case.make(ancil=gen_ancil(rng, case.npdf) if rng.random() < 0.3 else None)
    num = max(int(rng.choice([case.npdf, case.npdf + 1, 6, 9])), 3 if target == "interp_irregular" else 6)
    given = np.array([grid_for(rng, case, num) for _ in range(case.npdf)])
    lab = "%s to %s, a grid for each of %i PDFs" % (case.label, target, case.npdf)
    ctx.note(lab)
    before = fingerprint(ens)
    y = np.array([case.single(i).pdf(given[i]).reshape(-1) for i in range(case.npdf)])
    if target == "spline":
        areas = []
        for xrow, row in zip(given, y):
            t, c, k = splrep(xrow, row)
            anti = BSpline(t, c, k).antiderivative()
            areas.append(anti(xrow[-1]) - anti(xrow[0]))
        area = np.array(areas)
        good = area > 0.05
    else:
        area = np.sum(0.5 * np.diff(given, axis=1) * (y[:, 1:] + y[:, :-1]), axis=1)
        good = (area > 1e-6) & np.all(np.isfinite(y), axis=1)
    kwds = dict(method="xy") if target == "spline" else {}
    got = both_ways(ctx, ens, target, xvals=given.copy(), **kwds)
    ctx.true("source", fingerprint(ens) == before, "%s: the source was modified" % lab)
    if ctx.true("npdf", got.npdf == case.npdf, "%s: %s PDFs" % (lab, got.npdf)):
        if target == "interp_irregular":
            own = got.objdata()
            ctx.close("grid", own["xvals"], given, rtol=1e-12, atol=0, msg="%s: stored grids" % lab)
            close_vals(ctx, "stored", own["yvals"][good], (y.T / area).T[good], "%s: stored values" % lab, width=case.width())
        want = (y.T / area).T
        for i in np.flatnonzero(good):
            vals = got[int(i)].pdf(given[i]).reshape(-1)
            if target == "spline":
                ctx.close("pdf", vals, want[i], rtol=2e-6, atol=1e-8 * np.abs(want[i]).max(), msg="%s: pdf of row %i on its grid" % (lab, i))
            else:
                close_vals(ctx, "pdf", vals, want[i], "%s: pdf of row %i on its grid" % (lab, i), width=case.width())
    ctx.ev("conversions", 2)
    ctx.seen("own grids", case.label, target, "n1" if case.npdf == 1 else "n")


def separated(rng, npdf):
    """A norm ensemble whose rows can be told apart by their samples"""
    loc = rng.permutation(npdf) * 8.0 + rng.uniform(-1, 1, size=npdf)
    scale = rng.uniform(0.6, 1.2, size=npdf)
    return loc, scale


def sampled(ctx):
    """Conversions using samples match the source statistically, row by row"""
    rng = ctx.rng
    npdf = int(rng.choice([1, 2, 3, 5]))
    loc, scale = separated(rng, npdf)
    src = ["norm", "interp", "hist"][ctx.index % 3]
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc.reshape(-1, 1), scale=scale.reshape(-1, 1)))
    lo, hi = loc.min() - 6, loc.max() + 6
    if src != "norm":
        # converted by hand, not by qp
        grid = np.linspace(lo, hi, int(20 * (hi - lo)))
        if src == "interp":
            ens = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=np.exp(-0.5 * ((grid - loc[:, None]) / scale[:, None]) ** 2) / scale[:, None]))
        else:
            mid = 0.5 * (grid[1:] + grid[:-1])
            ens = qp.Ensemble(qp.hist, data=dict(bins=grid, pdfs=np.exp(-0.5 * ((mid - loc[:, None]) / scale[:, None]) ** 2) / scale[:, None]))
    before = fingerprint(ens)
    target = ["hist", "spline", "mixmod"][(ctx.index // 3) % 3]
    lab = "%s to %s by samples, %i PDFs" % (src, target, npdf)
    if target == "hist":
        num = int(rng.choice([npdf, 10, 25]))
        edges = np.sort(rng.uniform(lo, hi, size=max(num - 1, 1)))
        bins = np.concatenate([[lo - 1], edges, [hi + 1]])
        bins = bins[np.concatenate([[True], np.diff(bins) > 1e-3])]
        size = int(rng.choice([500, 3000]))
        got = qp.convert(ens, "hist", method="samples", bins=bins, size=size)
        frac = np.diff(got.cdf(bins), axis=1)
        want = np.diff(ens.cdf(bins), axis=1)
        tol = 6.5 * np.sqrt(np.maximum(want * (1 - want), 0) / size) + 6.0 / size
        ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs" % (lab, got.npdf))
        ctx.true("fractions", frac.shape == want.shape and np.all(np.abs(frac - want) <= tol), "%s: fraction of the samples per bin is off by %s" % (lab, np.max(np.abs(frac - want)) if frac.shape == want.shape else frac.shape))
        ctx.true("counts", np.allclose(frac * size, np.round(frac * size), atol=1e-6), "%s: the contents are no fractions of %i samples" % (lab, size))
        # bins that cover a part only: the fractions among the samples inside of the bins
        i = int(rng.integers(npdf))
        bins = loc[i] + np.sort(rng.uniform(-1.2, 1.2, size=5)) * scale[i]
        bins = np.concatenate([bins[:1] - 0.2, bins[np.concatenate([[True], np.diff(bins) > 0.02])] if np.diff(bins).max() > 0.02 else bins[:1], bins[-1:] + 0.2])
        one = ens[i]
        got = qp.convert(one, "hist", method="samples", bins=bins, size=4000)
        want = np.diff(one.cdf(bins).reshape(-1))
        inside = 4000 * want.sum()
        want = want / want.sum()
        frac = np.diff(got.cdf(bins).reshape(-1))
        tol = 6.5 * np.sqrt(want * (1 - want) / inside) + 8.0 / inside
        ctx.true("partial", np.all(np.abs(frac - want) <= tol), "%s: fractions of the samples inside of bins that cover a part: %s, expected %s" % (lab, frac, want))
    elif target == "spline":
        xvals = np.linspace(lo - 1, hi + 1, int(6 * (hi - lo)))
        got = qp.convert(ens, "spline", method="samples", xvals=xvals, size=1000)
        ctx.true("npdf", got.npdf == npdf, "%s: %s PDFs" % (lab, got.npdf))
        pdf = got.pdf(xvals)
        dx = xvals[1] - xvals[0]
        mean = np.sum(pdf * xvals, axis=1) * dx
        ctx.true("integral", np.allclose(np.sum(pdf, axis=1) * dx, 1.0, atol=0.02), "%s: integrals %s" % (lab, np.sum(pdf, axis=1) * dx))
        ctx.true("mean", np.all(np.abs(mean - loc) < 0.35), "%s: means %s of samples, of the source %s" % (lab, mean, loc))
        wide = np.sqrt(np.maximum(np.sum(pdf * (xvals - mean[:, None]) ** 2, axis=1) * dx, 0))
        ctx.true("width", np.all((wide > 0.8 * scale) & (wide < 1.35 * scale)), "%s: widths %s of samples, of the source %s" % (lab, wide, scale))
    else:
        ncomps, nsamp = int(rng.choice([1, 2, 3])), 1000
        got = qp.convert(ens, "mixmod", ncomps=ncomps, nsamples=nsamp, random_state=int(rng.integers(1e6)))
        ctx.true("npdf", got.npdf == npdf and got.objdata()["means"].shape == (npdf, ncomps), "%s: %s PDFs, shape %s" % (lab, got.npdf, got.objdata()["means"].shape))
        od = {k: np.asarray(v) for k, v in got.objdata().items()}
        wts = od["weights"] / od["weights"].sum(axis=1, keepdims=True)
        mean = np.sum(wts * od["means"], axis=1)
        var = np.sum(wts * (od["stds"] ** 2 + od["means"] ** 2), axis=1) - mean**2
        ctx.true("mean", np.all(np.abs(mean - loc) < 6.5 * scale / np.sqrt(nsamp)), "%s: means %s, of the source %s" % (lab, mean, loc))
        ctx.true("width", np.all(np.abs(np.sqrt(var) / scale - 1) < 0.2), "%s: widths %s, of the source %s" % (lab, np.sqrt(var), scale))
        ctx.true("weights", np.all(od["weights"] >= 0) and np.allclose(od["weights"].sum(axis=1), 1, atol=1e-6), "%s: weights %s" % (lab, od["weights"]))
    ctx.true("source", fingerprint(ens) == before, "%s: the source was modified" % lab)
    ctx.ev("conversions")
    ctx.seen("sampled", src, target, npdf)


def chain(ctx):
    """Conversion of a conversion: the grid values survive when the grid is the same"""
    rng = ctx.rng
    case = gen_case(ctx, kinds=["interp", "irr", "packed", "sparse", "hist", "mixmod", "scipy"])
    ens = case.make()
    xvals = grid_for(rng, case, 9)
    first = qp.convert(ens, "interp", xvals=xvals)
    if not np.all(np.isfinite(first.pdf(xvals))):
        return
    second = qp.convert(first, "interp_irregular", xvals=xvals)
    third = qp.convert(second, "interp", xvals=xvals)
    want = first.pdf(xvals)
    close_vals(ctx, "chain", second.pdf(xvals), want, "%s: interp to interp_irregular" % case.label, width=case.width())
    close_vals(ctx, "chain", third.pdf(xvals), want, "%s: interp to interp_irregular to interp" % case.label, width=case.width())
    probe = rng.uniform(xvals[0], xvals[-1], size=5)
    close_vals(ctx, "chain", third.pdf(probe), first.pdf(probe), "%s: back to interp" % case.label, width=case.width())
    hist1 = qp.convert(first, "hist", bins=xvals)
    hist2 = qp.convert(hist1, "hist", bins=xvals)
    ctx.close("chain", np.diff(hist2.cdf(xvals), axis=1), np.diff(first.cdf(xvals), axis=1), rtol=1e-8, atol=1e-10, msg="%s: interp to hist to hist" % case.label)
    ctx.ev("conversions", 5)
    ctx.seen("chain", case.label)


def unknown(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    before = fingerprint(ens)
    ctx.raises("unknown", KeyError, lambda: qp.convert(ens, "no_such_class", xvals=np.linspace(0, 1, 4)), "convert to an unknown class")
    ctx.raises("unknown", KeyError, lambda: qp.convert(ens, "spline", xvals=np.linspace(0, 1, 6)), "convert to spline without a method")
    ctx.raises("unknown", KeyError, lambda: qp.convert(ens, "norm"), "convert to a scipy distribution")
    ctx.raises("missing", (ValueError, KeyError), lambda: qp.convert(ens, str(rng.choice(["hist", "interp", "interp_irregular", "quant"]))), "convert without a grid")
    ctx.true("source", fingerprint(ens) == before, "rejected conversions modified the source")
    ctx.seen("unknown", ALL_KINDS[ctx.index % len(ALL_KINDS)], len(GENS))


WORKLOADS = [("convert", convert), ("own_grids", own_grids), ("sampled", sampled), ("chain", chain), ("unknown", unknown)]
