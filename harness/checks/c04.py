"""C04: ppf() is the monotone inverse of cdf()."""
import numpy as np

import qp
from gens import gen_case, gen_quant

GRIDDED = ("interp", "packed_interp", "sparse", "interp_irregular")


def jump(case):
    """The known jump of the cdf at the first grid point: quantiles below it are not judged"""
    out = np.zeros(case.npdf)
    if case.kind in GRIDDED:
        for i, (x, y) in enumerate(zip(case.ref.xs, case.ref.ys)):
            if y[0] > 0:
                # within the first interval, the code interpolates from half of y0*dx
                out[i] = case.ref.cums[i][1]
    return out


def quantiles(rng, npdf):
    """Quantiles in several layouts, with the same for every row given as 1-D"""
    n = int(rng.integers(2, 20))
    q = rng.uniform(0.001, 0.999, size=n)
    if rng.random() < 0.3:
        low = -13 if rng.random() < 0.3 else -5
        q = np.concatenate([q, 10.0 ** rng.uniform(low, -3, size=3), 1 - 10.0 ** rng.uniform(low, -3, size=3)])
    if rng.random() < 0.5:
        q = np.sort(q)
    if rng.random() < 0.4:
        full = np.array([rng.permutation(q) for _ in range(npdf)])
        return full, full
    return q, np.tile(q, (npdf, 1))


def inverse(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=["hist", "interp", "irr", "mixmod", "packed", "sparse", "scipy"])
    ens = case.make()
    lab, w = case.label, case.width()
    q, full = quantiles(rng, case.npdf)
    x = np.asarray(ens.ppf(q), float)
    if not ctx.true("shape", x.shape == full.shape, "%s: shape %s, expected %s" % (lab, x.shape, full.shape)):
        return
    ctx.true("finite", np.all(np.isfinite(x)), "%s: ppf is not finite" % lab, q=q)
    order = np.argsort(full, axis=1)
    xs = np.take_along_axis(x, order, axis=1)
    ctx.true("monotone", np.all(np.diff(xs, axis=1) >= -1e-9 * w), "%s: ppf decreases" % lab, q=q)
    skip = jump(case)
    spans = [case.ref.span(i) for i in range(case.npdf)]
    if case.kind == "interp_irregular":
        # the jump of the cdf may put ppf below the grid of the row, but not below all of them
        spans = [(case.lo, case.hi)] * case.npdf
    if case.kind == "mixmod":
        # very small quantiles of one row are within the grid of all of them
        spans = [(min(s[0] for s in spans), max(s[1] for s in spans))] * case.npdf
    for i in range(case.npdf):
        lo, hi = spans[i]
        ok = full[i] > skip[i] if case.kind in GRIDDED else np.ones(full.shape[1], bool)
        pad = 1e-9 * w
        ctx.true("support", np.all((x[i] >= lo - pad) & (x[i] <= hi + pad)), "%s: ppf outside the support of row %i" % (lab, i))
        if case.kind == "interp_irregular":
            ctx.true("support", np.all((x[i][ok] >= case.ref.xs[i][0] - pad) & (x[i][ok] <= case.ref.xs[i][-1] + pad)), "%s: ppf outside the grid of row %i" % (lab, i))
    # the inverse, in the layout the quantiles were asked for
    back = np.asarray(ens.cdf(x), float)
    if case.kind == "mixmod":
        step = case.ref.step()
        for i in range(case.npdf):
            lo, hi = case.ref.cdf(i, x[i] - 1.001 * step), case.ref.cdf(i, x[i] + 1.001 * step)
            lo = np.where(x[i] <= spans[i][0] + 1.001 * step, 0.0, lo)
            hi = np.where(x[i] >= spans[i][1] - 1.001 * step, 1.0, hi)
            ctx.true("inverse", np.all((full[i] >= lo - 1e-12) & (full[i] <= hi + 1e-12)), "%s: ppf of row %i is off by more than a step of the grid" % (lab, i), q=full[i], x=x[i])
            # linear interpolation of the cdf on the grid is what is documented: exact to second order
            err = np.abs(case.ref.cdf(i, x[i]) - full[i])
            bound = 0.5 * step**2 * 0.25 / np.min(case.ref.s[i]) ** 2 + 1e-9
            ctx.true("inverse2", np.all(err <= bound), "%s: cdf(ppf(q)) of row %i is off by %r, expected less than %r" % (lab, i, err.max(), bound))
    else:
        ok = full > skip[:, None]
        tol = 1e-8 if case.kind != "sparse" else 1e-7
        ctx.close("inverse", np.where(ok, back, 0), np.where(ok, full, 0), rtol=0, atol=tol, msg="%s: cdf(ppf(q))" % lab, q=q)
        want = np.array([case.ref.ppf(i, full[i]) for i in range(case.npdf)])
        # where the cdf is nearly flat, the place is not determined by the quantile to rounding
        eps = 1e-9
        lo = np.array([case.ref.ppf(i, np.clip(full[i] - eps, 0, 1)) for i in range(case.npdf)])
        hi = np.array([case.ref.ppf(i, np.clip(full[i] + eps, 0, 1)) for i in range(case.npdf)])
        pad = 1e-7 * w
        good = (x >= lo - pad) & (x <= hi + pad) | ~ok
        ctx.true("model", np.all(good), "%s: ppf differs from the model" % lab, q=full[~good][:5], got=x[~good][:5], want=want[~good][:5])
    if case.kind == "hist" or case.kind in GRIDDED:
        ends = np.asarray(ens.ppf(np.array([0.0, 1.0])), float)
        want = np.array([[case.lo, case.hi]] * case.npdf)
        ctx.close("ends", ends, want, rtol=1e-9, atol=1e-9 * w, msg="%s: ppf(0), ppf(1)" % lab)
        both = np.asarray(ens.ppf(np.array([0.0, 0.5, 1.0])), float)
        ctx.close("ends", both[:, [0, 2]], want, rtol=1e-9, atol=1e-9 * w, msg="%s: ppf(0), ppf(0.5), ppf(1)" % lab)
    if rng.random() < 0.5:
        # what is no quantile has no place, and the quantiles in the same call are not disturbed
        bad = rng.choice([-0.1, 1.1, -1e-9, 1 + 1e-9, 5.0, np.nan, -np.inf, np.inf], size=int(rng.integers(1, 4)))
        some = full[:, :3]
        perm = rng.permutation(bad.size + some.shape[1])
        got = np.asarray(ens.ppf(np.concatenate([some, np.tile(bad, (case.npdf, 1))], axis=1)[:, perm]), float)[:, np.argsort(perm)]
        ctx.true("no-quantile", np.all(np.isnan(got[:, some.shape[1]:])), "%s: ppf of %s is %s" % (lab, bad, got[:, some.shape[1]:][0]))
        ctx.close("no-quantile", got[:, : some.shape[1]], ens.ppf(some), rtol=1e-9, atol=1e-8 * w, msg="%s: ppf among values which are no quantiles" % lab)
    ctx.ev("quantiles", int(x.size))
    ctx.seen(lab, case.npdf, "full" if np.ndim(q) == 2 else "row")


def quant(ctx):
    rng = ctx.rng
    case = gen_quant(rng)
    ctx.note("case", case.label, "npdf", case.npdf)
    ens = case.make()
    q0 = case.ref.q0
    inner = (q0 > 0) & (q0 < 1)
    want = case.ref.l0[:, inner]
    got = np.asarray(ens.ppf(q0[inner]), float)
    ctx.close("quantiles", got, want, rtol=1e-9, atol=1e-8 * case.width(), msg="%s: ppf at the quantiles" % case.label)
    perm = rng.permutation(int(inner.sum()))
    got = np.asarray(ens.ppf(q0[inner][perm]), float)
    ctx.close("quantiles", got, want[:, perm], rtol=1e-9, atol=1e-8 * case.width(), msg="%s: ppf at the quantiles, not in order" % case.label)
    full = np.array([rng.permutation(q0[inner]) for _ in range(case.npdf)])
    got = np.asarray(ens.ppf(full), float)
    want2 = np.array([[want[i][np.argmin(np.abs(q0[inner] - v))] for v in full[i]] for i in range(case.npdf)])
    ctx.close("quantiles", got, want2, rtol=1e-9, atol=1e-8 * case.width(), msg="%s: ppf at the quantiles, other for each row" % case.label)
    ctx.seen(case.label, case.npdf)
    # input taken as it is: quantiles below the first or above the last one given
    keep = (q0 > 0.02) & (q0 < 0.98)
    if keep.sum() >= 4 and case.variant.startswith("piecewise_linear"):
        locs = case.ref.l0[:, keep]
        raw = qp.Ensemble(qp.quant, data=dict(quants=q0[keep], locs=np.array(locs), check_input=False))
        q = np.sort(np.concatenate([rng.uniform(1e-6, q0[keep][0], size=2), q0[keep], rng.uniform(q0[keep][-1], 1 - 1e-6, size=2)]))
        got = np.asarray(raw.ppf(q), float)
        lab = case.label + ", unchecked"
        ctx.close("raw", got[:, 2:-2], locs, rtol=1e-9, atol=1e-8 * case.width(), msg="%s: ppf at the quantiles" % lab)
        ctx.true("raw", np.all(got[:, :2] <= locs[:, :1] + 1e-9 * case.width()) and np.all(got[:, -2:] >= locs[:, -1:] - 1e-9 * case.width()), "%s: ppf outside the quantiles is among them" % lab)
        ctx.true("raw", np.all((got >= locs.min() - 1e-9 * case.width()) & (got <= locs.max() + 1e-9 * case.width())), "%s: ppf outside of all locations" % lab)
        ctx.seen(lab, case.npdf)


def known(ctx):
    """The known finding: quantiles below the jump of the cdf are all sent to the first grid point"""
    x, y = np.array([0.0, 1.0, 2.0]), np.array([[1.0, 1.0, 1.0]])
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=y))
    got = float(np.asarray(ens.ppf(0.1)).ravel()[0])
    ctx.ev("verdict")
    ctx.seen("known", "interp-jump")
    if abs(got - 0.2) > 1e-6:
        ctx.known.append(dict(key="interp-jump", msg="ppf(0.1) of a flat interp pdf on [0, 2] is %r, not 0.2" % got))


WORKLOADS = [("inverse", inverse), ("quant", quant), ("known", known)]
