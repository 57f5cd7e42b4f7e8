"""C23: samples have the right shape, are reproducible, and follow the right PDF."""
import numpy as np

import qp
from gens import GENS, gen_case, gen_spline
from lib import close_vals, snapshot, state_equal
from monitors import fingerprint

ALPHA = 1e-10
KINDS = ["hist", "interp", "irr", "mixmod", "quant", "packed", "sparse", "scipy"]


def slack(case):
    """By how much the cdf of the samples may differ from the model by design"""
    out = np.full(case.npdf, 1e-6)
    if case.kind == "mixmod":
        out[:] = 0.02  # the cdf is inverted on a grid of 201 points
    elif case.kind in ("interp", "interp_irregular", "packed_interp", "sparse"):
        # the known finding of C03 and C04: the first interval when its first value is not zero
        for i in range(case.npdf):
            if case.ref.ys[i][0] != 0:
                out[i] += 2 * case.ref.cums[i][1]
    elif case.kind == "quant":
        out[:] = 0.08  # quadratic interpolation between the quantiles
    return out


def support(case, i):
    if case.kind == "interp_irregular":
        # the ends of the support are shared by all the PDFs
        return case.lo, case.hi
    if case.kind in ("hist", "interp", "packed_interp", "sparse", "quant", "spline"):
        return case.ref.span(i)
    if case.kind == "mixmod":
        return -np.inf, np.inf
    return case.ref.span(i)


def ks_distance(u):
    x = np.sort(u)
    n = len(x)
    return max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n))


def degenerate(u):
    """Nearly all of the samples in one point (see the known finding of C04): nothing to correlate"""
    return np.max(np.unique(u, return_counts=True)[1]) > 0.5 * u.size


def judge(ctx, case, samples, lab):
    """Every row follows its own PDF, and the rows are independent"""
    npdf, num = samples.shape
    extra = slack(case)
    limit = np.sqrt(-np.log(ALPHA / 2) / 2.0 / num)
    us = []
    for i in range(npdf):
        low, high = support(case, i)
        tol = 1e-9 * (case.width() + abs(case.lo))
        if case.kind != "quant":
            ctx.true("support", np.all((samples[i] >= low - tol) & (samples[i] <= high + tol)), "%s: row %i outside of %s: %r %r" % (lab, i, (low, high), samples[i].min(), samples[i].max()))
        if case.kind == "quant":
            # at the quantiles only
            locs, quants = case.ref.l[i], case.ref.q
            frac = np.array([np.mean(samples[i] <= v) for v in locs])
            dist = np.max(np.abs(frac - quants)[1:-1])
            u = np.interp(samples[i], locs, quants)
        else:
            u = np.asarray(case.ref.cdf(i, samples[i]))
            # flat pieces of the cdf leave no gaps, bins with no probability none either
            dist = ks_distance(u)
        us.append(u)
        ctx.true("follows", dist <= limit + extra[i], "%s: row %i does not follow its cdf: distance %.3f of %i samples" % (lab, i, dist, num))
    us = np.array(us)
    if num >= 200:
        good = [i for i in range(npdf) if not degenerate(us[i])]
        if len(good) > 1:
            corr = np.abs(np.corrcoef(us[good])) - np.eye(len(good))
            i, j = np.unravel_index(np.argmax(corr), corr.shape)
            ctx.true("independent", corr[i, j] < 7 / np.sqrt(num), "%s: rows %i and %i have a correlation of %.3f" % (lab, good[i], good[j], corr[i, j]))
            ctx.ev("pairs of rows", len(good) * (len(good) - 1) // 2)
        for i in range(npdf):
            if degenerate(us[i]):
                continue
            corr = np.corrcoef(us[i][1:], us[i][:-1])[0, 1]
            ctx.true("serial", abs(corr) < 7 / np.sqrt(num), "%s: consecutive samples of row %i have a correlation of %.3f" % (lab, i, corr))
    ctx.ev("samples", samples.size)


def follow(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=KINDS)
    ens = case.make()
    num = int(rng.choice([case.npdf, 200, 500, 1000, 6000]))
    seed = int(rng.integers(0, 2**31))
    if rng.random() < 0.4:
        # other things first
        ens.pdf(case.points(rng, 3))
        ens.ppf(np.array([0.1, 0.9]))
        ens.gridded(np.linspace(case.lo, case.hi, 5))
    samples = np.asarray(ens.rvs(size=num, random_state=seed))
    lab = "%s: %i samples of %i PDFs" % (case.label, num, case.npdf)
    if not ctx.true("shape", samples.shape == (case.npdf, num), "%s: shape %s" % (lab, samples.shape)):
        return
    ctx.true("finite", np.all(np.isfinite(samples)), "%s: not finite" % lab)
    judge(ctx, case, samples, lab)
    # rows selected from the ensemble
    if case.npdf > 1:
        rows = rng.permutation(case.npdf)[: int(rng.integers(1, case.npdf))]
        part = np.asarray(ens[rows].rvs(size=300, random_state=seed))
        if ctx.true("shape", part.shape == (len(rows), 300), "%s: rows %s: shape %s" % (lab, rows, part.shape)):
            judge(ctx, case.subset(rows), part, lab + ", selected rows")
    ctx.seen(case.label, "n1" if case.npdf == 1 else "n", num)


def shapes(ctx):
    """Shapes, seeds, and what is left unchanged"""
    rng = ctx.rng
    case = gen_case(ctx, kinds=KINDS)
    ens = case.make()
    lab = case.label
    x, q = np.sort(case.points(rng, 4)), np.array([0.2, 0.7])
    before, hsh = snapshot(ens, x, q), fingerprint(ens)
    one = np.asarray(ens.rvs())
    ctx.true("shape", one.shape == (case.npdf, 1), "%s: rvs() of shape %s" % (lab, one.shape))
    for num in (1, 2, case.npdf, case.npdf + 1):
        got = np.asarray(ens.rvs(size=num, random_state=3))
        ctx.true("shape", got.shape == (case.npdf, num), "%s: rvs(%i) of shape %s" % (lab, num, got.shape))
        ctx.true("shape", np.asarray(ens.rvs(num)).shape == (case.npdf, num), "%s: rvs(%i) without a seed" % (lab, num))
    for i in range(case.npdf):
        low, high = support(case, i)
        if case.kind != "quant":
            ctx.true("support", low - 1e-9 * case.width() <= one[i, 0] <= high + 1e-9 * case.width(), "%s: sample of row %i outside of %s" % (lab, i, (low, high)))
    # equal seeds
    num, seed = int(rng.integers(2, 9)), int(rng.integers(0, 1000))
    first = np.asarray(ens.rvs(size=num, random_state=seed))
    ctx.close("seed", ens.rvs(size=num, random_state=seed), first, rtol=0, atol=0, msg="%s: the same seed again" % lab)
    ctx.close("seed", ens.rvs(size=num, random_state=np.random.RandomState(seed)), first, rtol=0, atol=0, msg="%s: RandomState with the same seed" % lab)
    ctx.close("seed", case.make().rvs(size=num, random_state=seed), first, rtol=0, atol=0, msg="%s: the same seed in a fresh ensemble" % lab)
    varied = any(np.unique(row).size == 20 for row in np.asarray(ens.rvs(size=20, random_state=seed)))
    ctx.true("other", not varied or not np.array_equal(ens.rvs(size=num, random_state=seed + 1), first), "%s: another seed gives the same samples" % lab)
    state = np.random.RandomState(seed)
    again = [np.asarray(ens.rvs(size=num, random_state=state)) for _ in range(2)]
    ctx.true("stream", np.array_equal(again[0], first) and not (varied and np.array_equal(again[1], first)), "%s: a RandomState is not used on" % lab)
    gen = [np.asarray(ens.rvs(size=num, random_state=np.random.default_rng(seed))) for _ in range(2)]
    ctx.true("generator", np.array_equal(gen[0], gen[1]) and gen[0].shape == (case.npdf, num), "%s: numpy Generator" % lab)
    # a seed does not stay behind
    free = [np.asarray(ens.rvs(size=num)) for _ in range(2)]
    ctx.true("stays", not varied or not np.array_equal(free[0], free[1]) and not np.array_equal(free[0], first), "%s: the seed is used again without being given" % lab)
    np.random.seed(seed)
    one = np.asarray(ens.rvs(size=num))
    np.random.seed(seed)
    ctx.close("global", ens.rvs(size=num), one, rtol=0, atol=0, msg="%s: the global seed" % lab)
    np.random.seed(seed)
    ens.rvs(size=num, random_state=5)
    ctx.close("global", ens.rvs(size=num), one, rtol=0, atol=0, msg="%s: sampling with a seed uses the global random numbers" % lab)
    ctx.true("unchanged", fingerprint(ens) == hsh, "%s: sampling changed the ensemble" % lab)
    state_equal(ctx, "unchanged", snapshot(ens, x, q), before, "%s after sampling" % lab)
    ctx.seen("shapes", lab, "n1" if case.npdf == 1 else "n")


def slow(ctx):
    """Splines are inverted numerically"""
    rng = ctx.rng
    case = gen_spline(rng, npdf=int(rng.integers(1, 3)))
    grid = np.linspace(case.lo, case.hi, 200)
    ens = case.make()
    num = 40
    samples = np.asarray(ens.rvs(size=num, random_state=int(rng.integers(1000))))
    lab = "%s: %i samples of %i PDFs" % (case.label, num, case.npdf)
    if ctx.true("shape", samples.shape == (case.npdf, num), "%s: shape %s" % (lab, samples.shape)) and np.all(case.ref_pdf(grid) > 0):
        judge(ctx, case, samples, lab)
    ctx.seen("slow", case.label, case.npdf)


def after(ctx):
    """Samples follow what the ensemble is after it was changed"""
    rng = ctx.rng
    kind = ["hist", "interp", "mixmod", "scipy"][ctx.index % 4]
    case = GENS[kind](rng, npdf=int(rng.integers(2, 5)))
    ens = case.make()
    ens.rvs(size=3, random_state=1)
    rows = rng.integers(0, case.npdf, size=3)
    other = case.make(rows=rows)
    other.rvs(size=2)
    ens.append(other)
    whole = case.subset(np.concatenate([np.arange(case.npdf), rows]))
    samples = np.asarray(ens.rvs(size=300, random_state=int(rng.integers(1000))))
    lab = "%s: samples after append" % case.label
    if ctx.true("shape", samples.shape == (whole.npdf, 300), "%s: shape %s" % (lab, samples.shape)):
        judge(ctx, whole, samples, lab)
    # repeated rows are sampled independently
    ctx.true("repeat", degenerate(samples[rows[0]]) or not np.array_equal(samples[rows[0]], samples[case.npdf]), "%s: a repeated row has the same samples" % lab)
    ctx.seen("after", case.label)


WORKLOADS = [("follow", follow), ("shapes", shapes), ("slow", slow), ("after", after)]
