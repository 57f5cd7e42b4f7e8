"""C02: pdf() follows the documented model of each representation."""
import numpy as np

import qp
from gens import CTORS, gen_case, gen_quant
from lib import close_vals, eval_tol


def shape_points(rng, x, npdf):
    """The same kind of points, as a row or as one row of points per PDF"""
    if rng.random() < 0.6:
        return x, np.tile(x, (npdf, 1))
    full = np.array([rng.permutation(x) for _ in range(npdf)])
    return full, full


def model(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=["hist", "interp", "irr", "mixmod", "spline", "packed", "sparse", "scipy", "hist", "interp"])
    ens = case.make()
    ctx.true("npdf", ens.npdf == case.npdf, "%s: npdf %s, expected %s" % (case.label, ens.npdf, case.npdf))
    for _ in range(3):
        x = case.points(rng, int(rng.integers(3, 30)), on_knots=case.kind not in ("spline",))
        if case.kind == "spline":
            inside = (x > case.lo) & (x < case.hi)
            if not np.any(inside):
                continue
            x = x[inside]
        if case.kind == "interp_irregular":
            # a PDF with its own grid is not specified exactly at the ends of the grids of the others
            ends = np.unique([[g[0], g[-1]] for g in case.ref.xs])
            x = x[~np.isin(x, ends)]
            if not x.size:
                continue
        x, full = shape_points(rng, x, case.npdf)
        got = ens.pdf(x)
        want = np.array([case.ref.pdf(i, full[i]) for i in range(case.npdf)])
        tol = dict(rtol=1e-8)
        if case.kind == "sparse":
            # the dictionary is cut off at a threshold, and stored at full precision
            tol = dict(rtol=1e-7)
        close_vals(ctx, "pdf", got, want, "%s pdf, npdf %i" % (case.label, case.npdf), width=case.width(), **tol)
        if case.kind != "spline":
            ctx.true("negative", np.all(np.asarray(got) >= -1e-12 * np.max(np.abs(want)) - 1e-12 / case.width()), "%s: pdf is negative" % case.label, got=got)
        ctx.ev("values_compared", int(np.size(got)))
        ctx.seen(case.label, case.npdf, "full" if np.ndim(x) == 2 else "row", "npts%i" % min(9, x.shape[-1]))
    if case.kind != "spline" and "scipy" not in case.extra:
        # far away there is nothing, and the other points in the same call are not disturbed
        x = case.points(rng, 4)
        far, _ = case.far_points(rng, int(rng.integers(1, 6)))
        perm = rng.permutation(len(x) + len(far))
        got = np.asarray(ens.pdf(np.concatenate([x, far])[perm]), float)
        got = got[:, np.argsort(perm)]
        ctx.close("far", got[:, len(x):], np.zeros((case.npdf, len(far))), rtol=0, atol=1e-12 / case.width(), msg="%s pdf far away" % case.label, x=far)
        if case.kind != "interp_irregular":
            close_vals(ctx, "pdf", got[:, : len(x)], case.ref_pdf(x), "%s pdf among far points" % case.label, width=case.width(), rtol=1e-7)
    if case.knots is not None and case.exact_knots and case.kind in ("hist", "interp", "packed_interp", "sparse"):
        # exactly at the edges: the bin on the right; the value given
        want = case.ref_pdf(case.knots)
        close_vals(ctx, "knots", ens.pdf(case.knots), want, "%s pdf at the edges" % case.label, width=case.width())
        ctx.seen(case.label, "knots")


def constructors(ctx):
    rng = ctx.rng
    ctor = CTORS[ctx.index % 4]
    case = gen_quant(rng, ctor=ctor)
    ctx.note("case", case.label, "npdf", case.npdf)
    ens = case.make()
    if ctor == "piecewise_constant":
        for i in range(case.npdf):
            loc = case.ref.l[i]
            mid = 0.5 * (loc[1:] + loc[:-1])
            slope = np.diff(case.ref.q) / np.diff(loc)
            x = mid[:-1] + 1e-9 * np.diff(mid)
            got = np.asarray(ens.pdf(x))[i]
            ctx.close("pdf", got, slope[:-1], rtol=1e-6, atol=1e-9 * slope.max(), msg="%s pdf just above the midpoints, row %i" % (case.label, i))
            ctx.true("negative", np.all(got >= -1e-9 * slope.max()), "%s: negative pdf" % case.label)
            ctx.seen(case.label, case.npdf)
        return
    for _ in range(2):
        x = case.points(rng, int(rng.integers(3, 20)))
        x, full = shape_points(rng, x, case.npdf)
        got = ens.pdf(x)
        want = np.array([case.ref.pdf(i, full[i]) for i in range(case.npdf)])
        ctx.close("pdf", got, want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width()), msg="%s pdf, npdf %i" % (case.label, case.npdf))
        if ctor == "piecewise_linear":
            ctx.true("negative", np.all(np.asarray(got) >= -1e-12 * np.max(np.abs(want)) - 1e-12 / case.width()), "%s: negative pdf" % case.label)
        ctx.seen(case.label, case.npdf, "full" if np.ndim(x) == 2 else "row")


WORKLOADS = [("model", model), ("constructors", constructors)]
