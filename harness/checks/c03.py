"""C03: cdf() is a valid CDF, and the integral of pdf()."""
import numpy as np

import qp
from gens import gen_case, gen_quant
from lib import gauss_nodes

GRIDDED = ("interp", "packed_interp", "sparse")


def sorted_points(rng, case, n):
    x = np.sort(case.points(rng, n))
    if case.knots is not None and rng.random() < 0.5:
        x = np.sort(np.concatenate([x, case.knots]))
    return x


def cdf(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=["hist", "interp", "irr", "mixmod", "spline", "packed", "sparse", "scipy"])
    ens = case.make()
    w = case.width()
    x = sorted_points(rng, case, 25)
    vals = np.asarray(ens.cdf(x), float)
    lab = case.label
    # a distribution function
    ctx.true("shape", vals.shape == (case.npdf, len(x)), "%s: shape %s" % (lab, vals.shape))
    ctx.true("nan", not np.any(np.isnan(vals)), "%s: cdf is NaN" % lab, x=x)
    grid = np.linspace(case.lo, case.hi, 101)
    # a spline through non-negative values may go below zero between them
    if case.kind != "spline" or np.all(case.ref_pdf(grid) >= 0):
        ctx.true("range", np.all((vals >= -1e-9) & (vals <= 1 + 1e-9)), "%s: cdf outside [0, 1]: %r %r" % (lab, vals.min(), vals.max()))
        ctx.true("monotone", np.all(np.diff(vals, axis=1) >= -1e-10), "%s: cdf decreases by %r" % (lab, -np.diff(vals, axis=1).min()))
    # limits
    far = np.array([case.lo - 3 * w, case.hi + 3 * w])
    if case.kind in ("mixmod", case.extra.get("scipy")):
        far = np.array([case.ref.frozen[0].ppf(0) if 0 else -1e6 * (abs(case.lo) + w), 1e6 * (abs(case.hi) + w)])
        ctx.close("limits", ens.cdf(far), np.tile([0.0, 1.0], (case.npdf, 1)), atol=1e-4, msg="%s: cdf far below and above" % lab)
    else:
        # spline pdfs are checked inside their knots only
        if case.kind != "spline":
            ctx.close("limits", ens.cdf(far), np.tile([0.0, 1.0], (case.npdf, 1)), atol=1e-10, msg="%s: cdf below and above the support" % lab)
    if case.kind != "spline" and "scipy" not in case.extra:
        # ever further away, with other points in the same call
        pts, side = case.far_points(rng, int(rng.integers(1, 6)))
        if case.kind == "mixmod":
            pts = np.where(np.abs(pts) < 1e100, np.where(side < 0, case.lo - 1e6 * w, case.hi + 1e6 * w), pts)
        near = case.points(rng, 3)
        perm = rng.permutation(len(pts) + 3)
        got = np.asarray(ens.cdf(np.concatenate([near, pts])[perm]), float)[:, np.argsort(perm)]
        ctx.close("limits", got[:, 3:], np.tile((side > 0).astype(float), (case.npdf, 1)), rtol=0, atol=1e-10, msg="%s: cdf far away" % lab, x=pts)
        ctx.close("limits", got[:, :3], ens.cdf(near), rtol=0, atol=1e-12, msg="%s: cdf among far points" % lab)
    # the model
    if case.kind in ("hist", "mixmod", "interp_irregular") or "scipy" in case.extra:
        keep = x
        if case.kind == "interp_irregular":
            # the grids differ, so only judge inside (or outside) of all the first intervals
            keep = x
        want = case.ref_cdf(keep)
        got = np.asarray(ens.cdf(keep), float)
        ok = np.ones(want.shape, bool)
        if case.kind == "interp_irregular":
            for i, g in enumerate(case.ref.xs):
                ok[i] = (keep > g[1]) & (keep < g[-1]) | (keep < g[0]) | (keep > g[-1])
        ctx.close("model", np.where(ok, got, 0), np.where(ok, want, 0), rtol=1e-8, atol=1e-9, msg="%s cdf" % lab)
        ctx.seen(lab, case.npdf, "model")
    if case.kind == "spline":
        inside = x[(x >= case.lo) & (x <= case.hi)]
        # where a spline goes below zero its integral may exceed one, which the cdf need not follow
        ctx.close("model", np.minimum(ens.cdf(inside), 1.0), np.minimum(case.ref_cdf(inside), 1.0), rtol=1e-7, atol=1e-8, msg="%s cdf" % lab)
        ctx.close("limits", ens.cdf(np.array([case.lo, case.hi])), case.ref_cdf(np.array([case.lo, case.hi])), atol=1e-8, msg="%s cdf at the ends" % lab)
        ctx.seen(lab, case.npdf, "model")
    if case.kind in GRIDDED:
        grid = case.ref.xs[0]
        want = np.array(case.ref.cums)
        got = np.asarray(ens.cdf(grid), float)
        tol = 1e-8 if case.kind != "sparse" else 1e-7
        ctx.close("knots", got[:, 1:], want[:, 1:], rtol=0, atol=tol, msg="%s cdf at the grid points" % lab)
        # linear in between, except in the first interval when the first value is not zero
        mids = rng.uniform(grid[1], grid[-1], size=11)
        ctx.close("linear", ens.cdf(mids), case.ref_cdf(mids), rtol=0, atol=tol, msg="%s cdf between the grid points" % lab)
        zero = np.array([y[0] == 0 for y in case.ref.ys])
        if np.any(zero):
            first = rng.uniform(grid[0], grid[1], size=5)
            ctx.close("first", np.asarray(ens.cdf(first))[zero], case.ref_cdf(first)[zero], rtol=0, atol=tol, msg="%s cdf in the first interval" % lab)
        ctx.seen(lab, case.npdf, "knots")
    # the integral of the pdf that is actually there
    edges = None
    if case.kind in ("hist",) + GRIDDED:
        edges = case.knots if case.kind == "hist" else case.ref.xs[0]
        step = 1
    elif case.kind in ("mixmod",) or "scipy" in case.extra:
        edges = np.linspace(case.lo, case.hi, 41)
        step = 4
        if case.kind == "mixmod":
            edges = np.linspace(case.lo, case.hi, 121)
        if case.knots is not None:
            edges = None if case.kind in ("beta", "triang") else np.unique(np.concatenate([edges, case.knots.ravel()]))
    elif case.kind == "spline":
        edges = np.unique(np.concatenate([np.linspace(case.lo, case.hi, 9), case.ref.t.ravel()]))
        step = 1
    if case.kind in ("triang", "gamma", "beta", "lognorm"):
        edges = None
    if edges is not None:
        nodes, weights = gauss_nodes(edges, order=2 if case.kind in ("hist",) + GRIDDED else 8)
        pdf = np.asarray(ens.pdf(nodes.ravel()), float).reshape((case.npdf,) + nodes.shape)
        integral = np.sum(pdf * weights, axis=2)
        diff = np.diff(np.asarray(ens.cdf(edges), float), axis=1)
        skip = 1 if case.kind in GRIDDED else 0
        if case.kind == "spline":
            above = case.ref_cdf(edges) > 1 + 1e-9
            above = above[:, 1:] | above[:, :-1]
            diff, integral = np.where(above, 0.0, diff), np.where(above, 0.0, integral)
        if case.kind in GRIDDED:
            # the first interval only where the first value is zero
            zero = np.array([y[0] == 0 for y in case.ref.ys])
            if np.any(zero):
                ctx.close("integral", diff[zero][:, :1], integral[zero][:, :1], rtol=0, atol=1e-7, msg="%s: integral of pdf over the first interval" % lab)
        ctx.close("integral", diff[:, skip:], integral[:, skip:], rtol=1e-6, atol=1e-7, msg="%s: integral of pdf between points" % lab)
        ctx.seen(lab, case.npdf, "integral")
    if case.kind == "interp_irregular":
        for i in rng.choice(case.npdf, size=min(3, case.npdf), replace=False):
            grid = case.ref.xs[i]
            nodes, weights = gauss_nodes(grid, order=2)
            pdf = np.asarray(ens.pdf(nodes.ravel()), float)[i].reshape(nodes.shape)
            integral = np.sum(pdf * weights, axis=1)
            diff = np.diff(np.asarray(ens.cdf(grid[1:]), float)[i])
            ctx.close("integral", diff, integral[1:], rtol=1e-6, atol=1e-8, msg="%s: integral of pdf of row %i" % (lab, i))
        ctx.seen(lab, case.npdf, "integral")
    ctx.ev("cdf_values", int(vals.size))


def quant(ctx):
    rng = ctx.rng
    case = gen_quant(rng)
    ctx.note("case", case.label, "npdf", case.npdf)
    ens = case.make()
    lab = case.label
    for i in range(case.npdf):
        got = np.asarray(ens.cdf(case.ref.l0[i]))[i]
        inner = (case.ref.q0 > 0) & (case.ref.q0 < 1)
        ctx.close("quantiles", got[inner], case.ref.q0[inner], rtol=0, atol=1e-9, msg="%s: cdf at the locations of the quantiles, row %i" % (lab, i))
        low, high = case.ref.l[i][0], case.ref.l[i][-1]
        w = high - low
        out = np.asarray(ens.cdf(np.array([low - w, low - 1e-3 * w, high + 1e-3 * w, high + w])))[i]
        ctx.close("outside", out, [0, 0, 1, 1], rtol=0, atol=1e-9, msg="%s: cdf outside the padded locations, row %i" % (lab, i))
        ends = np.asarray(ens.cdf(np.array([low + 1e-9 * w, high - 1e-9 * w])))[i]
        ctx.close("ends", ends, [0, 1], rtol=0, atol=1e-5, msg="%s: cdf at the padded locations, row %i" % (lab, i))
    pts, side = case.far_points(rng, int(rng.integers(1, 6)))
    ctx.close("outside", ens.cdf(pts), np.tile((side > 0).astype(float), (case.npdf, 1)), rtol=0, atol=1e-9, msg="%s: cdf far away" % lab, x=pts)
    x = np.sort(case.points(rng, 15))
    vals = np.asarray(ens.cdf(x))
    ctx.true("nan", not np.any(np.isnan(vals)), "%s: cdf is NaN" % lab)
    ctx.seen(lab, case.npdf)


def known(ctx):
    """The known finding: the cdf of interpolated grids jumps at the first grid point"""
    x, y = np.array([0.0, 1.0, 2.0]), np.array([[1.0, 1.0, 1.0]])
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=y))
    got = float(np.asarray(ens.cdf(1e-6)).ravel()[0])
    ctx.ev("verdict")
    ctx.seen("known", "interp-jump")
    if abs(got - 0.5e-6) > 1e-6:
        ctx.known.append(dict(key="interp-jump", msg="cdf of interp just above the first grid point is %r, not 5e-7" % got))


WORKLOADS = [("cdf", cdf), ("quant", quant), ("known", known)]
