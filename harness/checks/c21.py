"""C21: chunked metric evaluation agrees with evaluation of the whole."""
import numpy as np

import qp
from gens import gen_case, gen_hist, gen_interp, gen_mixmod, gen_scipy
from lib import subranges

M = qp.metrics
EXACT = ["brier", "cdeloss"]
POINT = {"point_bias": M.PointBias, "point_stats_iqr": M.PointSigmaIQR, "point_stats_sigma_mad": M.PointSigmaMAD, "point_outlier_rate": M.PointOutlierRate}


def partition(rng, num):
    """Indices of chunks: any sizes (ones included), in any order, contiguous or not"""
    style = int(rng.integers(0, 5))
    if style == 0:
        parts = [np.array([i]) for i in range(num)]
    elif style == 1:
        size = int(rng.integers(1, num + 1))
        parts = [np.arange(num)[i : i + size] for i in range(0, num, size)]
    elif style == 2:
        parts = [np.arange(num)]
    else:
        parts = [np.arange(a, b) for a, b in subranges(rng, num)]
    if style == 4:
        perm = rng.permutation(num)
        parts = [perm[p] for p in parts]
    parts = [parts[i] for i in rng.permutation(len(parts))] if rng.random() < 0.7 else parts
    return parts, ["ones", "equal", "one", "any", "scattered"][style]


class Log:
    """Records what a metric was given, chunk by chunk"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rows = []

    def accumulate(self, metric, rows, *args):
        self.rows += list(rows)
        self.ctx.ev("accumulate")
        return metric.accumulate(*args)

    def complete(self, num):
        return sorted(self.rows) == list(range(num))


def dist_exact(ctx):
    """Brier score and CDE loss"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    w = case.width()
    truth = rng.uniform(case.lo, case.hi, size=case.npdf)
    grid = np.linspace(case.lo, case.hi, int(rng.integers(4, 25)))
    limits, dx = (float(case.lo), float(case.hi)), w / (int(rng.integers(3, 30)) + 0.5)
    for name in EXACT:
        make = (lambda: M.BrierMetric(limits=limits, dx=dx)) if name == "brier" else (lambda: M.CDELossMetric(eval_grid=grid))
        metric = make()
        whole = make().evaluate(ens, truth)
        for _ in range(2):
            parts, style = partition(rng, case.npdf)
            log = Log(ctx)
            metric.initialize()
            acc = []
            for p in parts:
                chunk = ens[p] if rng.random() < 0.5 else case.make(rows=p)
                acc.append(log.accumulate(metric, p, chunk, truth[p]))
            assert log.complete(case.npdf)
            ctx.note(name, [list(p) for p in parts])
            # gathered as tuples, lists or arrays
            form = [acc, [list(a) for a in acc], np.array(acc)][int(rng.integers(0, 3))]
            got = metric.finalize(form)
            scale = 1e-10 * (abs(float(whole)) + np.max(np.abs(np.array(acc)[:, :-1])))
            ctx.close(name, got, whole, rtol=1e-9, atol=scale, msg="%s: %s of %i PDFs in %i chunks (%s)" % (case.label, name, case.npdf, len(parts), style))
            ctx.seen(case.label, name, style, "n1" if case.npdf == 1 else "n", len(parts))
    # partial sums of partial sums (several processes, each with several chunks)
    if case.npdf > 1:
        metric = M.BrierMetric(limits=limits, dx=dx)
        one = [metric.accumulate(ens[[i]], truth[[i]]) for i in range(case.npdf)]
        half = int(rng.integers(1, case.npdf))
        both = [np.sum(np.array(one[:half]), axis=0), np.sum(np.array(one[half:]), axis=0)]
        ctx.close("brier", metric.finalize(both), metric.evaluate(ens, truth), rtol=1e-9, atol=1e-10, msg="%s: brier from two partial sums" % case.label)


def file_chunks(ctx):
    """Chunks as they are read from a file"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    truth = rng.uniform(case.lo, case.hi, size=case.npdf)
    ens.write_to("whole.hdf5")
    grid = np.linspace(case.lo, case.hi, 13)
    limits, dx = (float(case.lo), float(case.hi)), case.width() / 12.5
    size = int(rng.integers(1, case.npdf + 2))
    brier, cde = M.BrierMetric(limits=limits, dx=dx), M.CDELossMetric(eval_grid=grid)
    one, two = [], []
    for start, end, chunk in qp.iterator("whole.hdf5", chunk_size=size):
        one.append(brier.accumulate(chunk, truth[start:end]))
        two.append(cde.accumulate(chunk, truth[start:end]))
        ctx.ev("accumulate", 2)
    for name, metric, acc in (("brier", brier, one), ("cdeloss", cde, two)):
        whole = metric.evaluate(ens, truth)
        ctx.close(name, metric.finalize(acc), whole, rtol=1e-8, atol=1e-9 * (abs(float(whole)) + np.max(np.abs(np.array(acc)[:, :-1]))), msg="%s: %s of %i PDFs read in chunks of %i" % (case.label, name, case.npdf, size))
    ctx.seen(case.label, "file", size, case.npdf)


def ranked(ctx, key, value, sample, quant, tol, msg):
    """The value is a quantile of the sample, to within some ranks"""
    x = np.sort(sample)
    n = len(x)
    low = np.quantile(x, max(0.0, quant - tol / n))
    high = np.quantile(x, min(1.0, quant + tol / n))
    slack = 1e-9 * (abs(low) + abs(high)) + 1e-12
    return ctx.true(key, np.ndim(value) == 0 and low - slack <= value <= high + slack, "%s: %r, expected between %r and %r" % (msg, value, low, high))


def points(rng, ctx):
    """Estimates and true values"""
    num = int(rng.choice([1, 2, 5, 20, 60, 300, 1500]))
    ref = rng.uniform(0, 2, size=num)
    style = int(rng.integers(0, 5))
    if style == 0:
        ez = 0.03 * rng.normal(size=num) + rng.uniform(-0.05, 0.05)
    elif style == 1:
        ez = 0.02 * rng.standard_t(2, size=num)
    elif style == 2:
        # an uneven order, so that the chunks are different
        ez = np.sort(0.05 * rng.exponential(size=num))
    elif style == 3:
        # many on both sides of the least limit for outliers
        ez = np.where(rng.random(num) < 0.4, rng.uniform(0.055, 0.065, size=num) * rng.choice([-1, 1], size=num), 0.001 * rng.normal(size=num))
    else:
        ez = np.where(rng.random(num) < 0.15, rng.uniform(-0.5, 0.5, size=num), 0.005 * rng.normal(size=num))
    est = ref + ez * (1 + ref)
    return est, ref, (est - ref) / (1 + ref), style


def judge_point(ctx, name, got, ez, lab):
    """A finalized point metric is right to within some ranks"""
    n = len(ez)
    tol = 2.0 + 0.006 * n
    x = np.sort(ez)

    def between(quant, extra=0.0):
        return np.quantile(x, max(0.0, quant - (tol + extra) / n)), np.quantile(x, min(1.0, quant + (tol + extra) / n))

    low25, high25 = between(0.25)
    low75, high75 = between(0.75)
    small, large = max(0.0, low75 - high25) / 1.349, max(0.0, high75 - low25) / 1.349
    if name == "point_bias":
        ranked(ctx, name, got, ez, 0.5, tol, lab)
    elif name == "point_stats_iqr":
        ctx.true(name, small - 1e-12 <= got <= large + 1e-12, "%s: %r, expected between %r and %r" % (lab, got, small, large))
    elif name == "point_stats_sigma_mad":
        med = between(0.5)
        shift = med[1] - med[0]
        dist = np.sort(np.abs(x - np.median(x)))
        low = np.quantile(dist, max(0.0, 0.5 - tol / n)) - shift
        high = np.quantile(dist, min(1.0, 0.5 + tol / n)) + shift
        step = (x[-1] - x[0]) / 10000.0
        ctx.true(name, 1.4826 * (low - step) - 1e-12 <= got <= 1.4826 * (high + step) + 1e-12, "%s: %r, expected between %r and %r" % (lab, got, 1.4826 * low, 1.4826 * high))
    else:
        most = np.sum(np.abs(x) > max(0.06, 3 * small) - 1e-9)
        least = np.sum(np.abs(x) > max(0.06, 3 * large) + 1e-9)
        ctx.true(name, least - tol <= got * n <= most + tol, "%s: %r, expected between %r and %r" % (lab, got, least / n, most / n))
        ctx.true(name, 0 <= got <= 1 + 1e-12, "%s: rate of %r" % (lab, got))


def point(ctx):
    """The metrics of point estimates"""
    rng = ctx.rng
    est, ref, ez, pstyle = points(rng, ctx)
    num = len(ez)
    for name, cls in POINT.items():
        kwds = {}
        if rng.random() < 0.3:
            kwds["tdigest_compression"] = int(rng.choice([1000, 2000]))
        if name == "point_stats_sigma_mad":
            kwds["num_bins"] = 20000
        metric = cls(**kwds)
        parts, style = partition(rng, num)
        log = Log(ctx)
        metric.initialize()
        acc = [log.accumulate(metric, p, est[p], ref[p]) for p in parts]
        assert log.complete(num)
        lab = "%s of %i values (style %i) in %i chunks (%s)" % (name, num, pstyle, len(parts), style)
        # the digests hold all the values
        for p, cen in zip(parts, acc):
            cen = np.asarray(cen)
            ctx.close("weight", np.sum(cen[:, 1]), len(p), rtol=1e-9, msg="%s: weight of a chunk" % lab)
            ctx.close("mean", np.sum(cen[:, 0] * cen[:, 1]), np.sum(ez[p]), rtol=1e-6, atol=1e-9 * len(p), msg="%s: sum of a chunk" % lab)
        got = metric.finalize(acc)
        judge_point(ctx, name, float(got), ez, lab)
        # with the chunks the other way round
        judge_point(ctx, name, float(cls(**kwds).finalize(acc[::-1])), ez, lab + " reversed")
        # and from iterators
        style2 = int(rng.integers(0, 3))
        its = ([est[p] for p in parts], [ref[p] for p in parts])
        if style2 == 1:
            its = tuple(iter(v) for v in its)
        elif style2 == 2:
            its = ((est[p] for p in parts), (ref[p] for p in parts))
        judge_point(ctx, name, float(cls(**kwds).eval_from_iterator(*its)), ez, lab + " from iterators")
        # the same chunks give the same result
        ctx.close("iterator", float(cls(**kwds).eval_from_iterator([est[p] for p in parts], [ref[p] for p in parts])), float(got), rtol=1e-9, atol=1e-12, msg=lab + ": eval_from_iterator")
        if num <= 60 and len(parts) == 1 and name != "point_stats_iqr":
            whole = cls(**kwds).evaluate(est, ref)
            judge_point(ctx, name, float(whole), ez, lab + " evaluated")
        ctx.seen("point", name, pstyle, style, num)


def pit(ctx):
    """The PIT ensemble"""
    rng = ctx.rng
    npdf = int(rng.choice([12, 40, 150]))
    case = [gen_scipy, gen_mixmod, gen_interp, gen_hist][ctx.index % 4](rng, npdf=npdf)
    ens = case.make()
    # true values drawn from (or near) each PDF
    truth = np.asarray(ens.rvs(size=1, random_state=int(rng.integers(1000))))[:, 0]
    shift = rng.uniform(case.lo, case.hi, size=npdf)
    sample = lambda z: np.array([float(np.ravel(case.single(i).cdf(z[i]))[0]) for i in range(npdf)])
    alt = sample(shift)
    # samples that are exactly 0 or 1 would be ties, which a digest spreads
    use = (rng.random(npdf) < 0.2) & (alt > 1e-3) & (alt < 1 - 1e-3)
    truth = np.where(use, shift, truth)
    samps = np.where(use, alt, sample(truth))
    grid = None if rng.random() < 0.4 else np.linspace(0, 1, int(rng.choice([9, 21, npdf])))
    metric = M.PITMetric() if grid is None else M.PITMetric(eval_grid=grid)
    use = np.linspace(0, 1, 100) if grid is None else grid
    parts, style = partition(rng, npdf)
    lab = "%s: PIT of %i PDFs in %i chunks (%s)" % (case.label, npdf, len(parts), style)
    inner = samps[(samps > 1e-6) & (samps < 1 - 1e-6)]
    if len(np.unique(inner)) < npdf - 1:
        return
    metric.initialize()
    log = Log(ctx)
    acc = [log.accumulate(metric, p, ens[p], truth[p]) for p in parts]
    assert log.complete(npdf)
    for p, cen in zip(parts, acc):
        cen = np.asarray(cen)
        ctx.close("weight", np.sum(cen[:, 1]), len(p), rtol=1e-9, msg="%s: weight of a chunk" % lab)
        ctx.close("mean", np.sum(cen[:, 0] * cen[:, 1]), np.sum(samps[p]), rtol=1e-6, atol=1e-9 * len(p), msg="%s: sum of a chunk" % lab)
    ens_pit = metric.finalize(acc)
    ctx.true("class", ens_pit.gen_class.name == "quant" and ens_pit.npdf == 1, "%s: %s" % (lab, ens_pit.gen_class.name))
    quants, locs = np.ravel(ens_pit.metadata()["quants"]), np.ravel(ens_pit.objdata()["locs"])
    given = use if npdf >= len(use) else np.linspace(0, 1, npdf)
    tol = 2.5 + 0.006 * npdf
    x = np.sort(samps)
    for q, loc in zip(quants, locs):
        if not 0 < q < 1:
            continue
        ctx.true("grid", np.min(np.abs(given - q)) < 1e-12, "%s: quantile %r is not on the grid" % (lab, q))
        low, high = np.quantile(x, max(0, q - tol / npdf)), np.quantile(x, min(1, q + tol / npdf))
        ctx.true("quantile", low - 1e-9 <= loc <= high + 1e-9, "%s: quantile %r at %r, expected between %r and %r" % (lab, q, loc, low, high))
    ctx.true("number", len(quants) >= 0.6 * min(len(given), len(inner)) - 2, "%s: %i quantiles of %i" % (lab, len(quants), len(given)))
    ctx.seen("pit", case.label, style, npdf, "default" if grid is None else len(use))


def same(ctx):
    """Chunks of equal values, and many chunks"""
    rng = ctx.rng
    num = int(rng.choice([1, 3, 30]))
    val = float(rng.choice([0.0, 0.01, -0.2]))
    ref = np.full(num, 0.5) if rng.random() < 0.5 or val else rng.uniform(0, 2, size=num)
    est = ref + val * (1 + ref)
    parts, style = partition(rng, num)
    for name, cls in POINT.items():
        metric = cls()
        want = {"point_bias": val, "point_outlier_rate": float(abs(val) > 0.06)}.get(name, 0.0)
        lab = "%s of %i equal values %r in %i chunks" % (name, num, val, len(parts))
        ctx.close("same", metric.finalize([metric.accumulate(est[p], ref[p]) for p in parts]), want, rtol=1e-6, atol=1e-9, msg=lab)
        ctx.close("same", metric.evaluate(est, ref), want, rtol=1e-6, atol=1e-9, msg=lab + " (whole)")
    ctx.seen("same", num, val, style)


WORKLOADS = [("dist_exact", dist_exact), ("file_chunks", file_chunks), ("point", point), ("pit", pit), ("same", same)]
