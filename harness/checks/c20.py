"""C20: PIT samples are the cdf at the truth, and the PIT metrics follow them."""
import numpy as np
from scipy import stats as sps

import qp
from gens import gen_case
from lib import pit_samples
from qp.metrics.pit import DEFAULT_QUANTS, PIT

M = qp.metrics


def truths(rng, case):
    """True values of all sorts, with the expected samples"""
    w = case.width()
    style = int(rng.integers(0, 4))
    if style == 0:
        truth = case.points(rng, case.npdf)
    elif style == 1:
        truth = np.full(case.npdf, case.points(rng, 1)[0])
    elif style == 2:
        truth = np.sort(case.points(rng, case.npdf))[::-1].copy()
    else:
        truth = case.points(rng, case.npdf)
        far = rng.random(case.npdf) < 0.3
        truth = np.where(far, rng.choice([case.lo - 5 * w, case.hi + 5 * w], size=case.npdf), truth)
    if rng.random() < 0.15:
        truth[int(rng.integers(case.npdf))] = np.nan
    want = np.array([float(np.ravel(case.single(i).cdf(np.array([t])))[0]) for i, t in enumerate(truth)])
    return truth, np.where(np.isfinite(want), want, 0.0), style


def grids(rng, npdf):
    style = int(rng.integers(0, 4))
    if style == 0:
        return None
    if style == 1:
        return np.linspace(0, 1, int(rng.choice([4, npdf, npdf + 1, 2 * npdf])))
    if style == 2:
        return np.sort(rng.random(int(rng.integers(4, 9))))
    return [0.05, 0.25, 0.5, 0.75, 0.95]


def judge_ensemble(ctx, pit, samps, grid, lab):
    """The pit ensemble holds the quantiles of the samples"""
    grid = np.asarray(DEFAULT_QUANTS if grid is None else grid, float)
    if len(samps) < len(grid):
        grid = np.linspace(0, 1, len(samps))
    quants = np.quantile(samps, grid)
    keep = (quants > 0) & (quants < 1)
    keep &= np.concatenate([[True], np.diff(quants) > 0])
    locs, grid = quants[keep], grid[keep]
    ctx.true("class", pit.gen_class.name == "quant" and pit.npdf == 1, "%s: pit is %s with %s PDFs" % (lab, pit.gen_class.name, pit.npdf))
    fresh = qp.Ensemble(qp.quant, data=dict(quants=grid, locs=np.atleast_2d(locs)))
    ctx.close("locs", np.ravel(pit.objdata()["locs"]), np.ravel(fresh.objdata()["locs"]), rtol=1e-10, atol=1e-12, msg=lab + ": locations of the pit ensemble")
    ctx.close("quants", np.ravel(pit.metadata()["quants"]), np.ravel(fresh.metadata()["quants"]), rtol=1e-10, atol=1e-12, msg=lab + ": quantiles of the pit ensemble")
    inner = (grid > 0) & (grid < 1)
    ctx.close("cdf", np.ravel(pit.cdf(locs))[inner], grid[inner], rtol=0, atol=1e-8, msg=lab + ": cdf of the pit ensemble")
    return fresh


def pit(ctx):
    rng = ctx.rng
    kinds = ["hist", "interp", "irr", "mixmod", "spline", "quant", "packed", "sparse", "scipy"]
    case = gen_case(ctx, kinds=kinds, npdf=int(rng.choice([5, 7, 12, 30])))
    ens = case.make()
    truth, want, style = truths(rng, case)
    grid = grids(rng, case.npdf)
    lab = "%s: PIT of %i truths of style %i" % (case.label, case.npdf, style)
    form = int(rng.integers(0, 3))
    arg = [truth, truth.tolist(), truth.reshape(-1, 1)][form]
    # too few different quantiles can not make a quant ensemble
    use = np.asarray(DEFAULT_QUANTS if grid is None else grid, float)
    if len(want) < len(use):
        use = np.linspace(0, 1, len(want))
    quants = np.unique(np.quantile(want, use))
    enough = np.sum((quants > 0) & (quants < 1)) >= 4 and np.min(np.diff(quants)) > 1e-9
    samples = pit_samples(ens, arg)
    ctx.close("samples", samples, want, rtol=1e-9, atol=1e-11, msg=lab)
    ctx.seen(case.label, style, form, "samples")
    if not enough:
        return
    obj = PIT(ens, arg) if grid is None else PIT(ens, arg, grid)
    ctx.close("samples", obj.pit_samps, want, rtol=1e-9, atol=1e-11, msg=lab)
    samps = np.array(obj.pit_samps)
    fresh = judge_ensemble(ctx, obj.pit, samps, grid, lab)
    metric = M.PITMetric() if grid is None else M.PITMetric(eval_grid=grid)
    judge_ensemble(ctx, metric.evaluate(ens, arg), samps, grid, lab + " (class)")
    # the statistics of the samples
    out = {}
    for name, call in (("ks", obj.evaluate_PIT_KS), ("cvm", obj.evaluate_PIT_CvM), ("outlier", obj.evaluate_PIT_outlier_rate)):
        out[name] = call()
    ref = sps.kstest(samps, sps.uniform.cdf)
    ctx.close("ks", [out["ks"].statistic, out["ks"].pvalue], [ref.statistic, ref.pvalue], rtol=1e-9, msg=lab + ": KS")
    # independently of scipy
    x = np.clip(np.sort(samps), 0, 1)
    n = len(x)
    ks = max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n))
    cvm = 1 / (12.0 * n) + np.sum(((2 * np.arange(1, n + 1) - 1) / (2.0 * n) - x) ** 2)
    ctx.close("ks", out["ks"].statistic, ks, rtol=1e-9, msg=lab + ": KS statistic")
    ctx.close("cvm", out["cvm"].statistic, cvm, rtol=1e-9, msg=lab + ": CvM statistic")
    ctx.close("cvm", out["cvm"].pvalue, sps.cramervonmises(samps, sps.uniform.cdf).pvalue, rtol=1e-7, atol=1e-10, msg=lab + ": CvM p-value")
    for low, high in ((0.0001, 0.9999), tuple(np.sort(rng.random(2)))):
        got = obj.evaluate_PIT_outlier_rate(low, high)
        rate = np.ravel(fresh.cdf(low))[0] + 1 - np.ravel(fresh.cdf(high))[0]
        ctx.close("outlier", got, rate, rtol=1e-8, atol=1e-9, msg=lab + ": outlier rate")
    ctx.close("outlier", out["outlier"], np.ravel(fresh.cdf(0.0001))[0] + 1 - np.ravel(fresh.cdf(0.9999))[0], rtol=1e-8, atol=1e-9, msg=lab + ": default outlier rate")
    lims = (0.0, 1.0) if rng.random() < 0.5 else tuple(np.sort(rng.random(2)))
    trim = samps[(samps >= lims[0]) & (samps <= lims[1])]
    if len(np.unique(trim)) > 3:
        got = obj.evaluate_PIT_anderson_ksamp(*lims) if lims != (0.0, 1.0) or rng.random() < 0.5 else obj.evaluate_PIT_anderson_ksamp()
        stat = sps.anderson_ksamp([trim, np.linspace(lims[0], lims[1], len(trim))])
        ctx.close("ad", got.statistic, stat.statistic, rtol=1e-8, atol=1e-9, msg=lab + ": AD between %s" % (lims,))
        both = samps[(samps >= 0) & (samps <= 1)]
        full = sps.anderson_ksamp([both, np.linspace(0, 1, len(both))]) if len(np.unique(both)) > 3 else None
        if full is not None:
            many = obj.calculate_pit_meta_metrics()
            ctx.true("meta", set(many) == {"ad", "cvm", "ks", "outlier_rate"}, "%s: meta metrics %s" % (lab, list(many)))
            ctx.close("meta", [many["ad"].statistic, many["cvm"].statistic, many["ks"].statistic, many["outlier_rate"]], [full.statistic, cvm, ks, out["outlier"]], rtol=1e-8, atol=1e-9, msg=lab + ": meta metrics")
    # computing the statistics does not change the object
    ctx.true("stable", np.array_equal(obj.pit_samps, samps), "%s: the samples changed" % lab)
    ctx.ev("samples", n)
    ctx.seen(case.label, style, "grid %s" % (None if grid is None else type(grid).__name__), n)


def pairs(ctx):
    """Each truth goes with its own PDF"""
    rng = ctx.rng
    npdf = int(rng.choice([2, 3, 10, 100, 600, 1500, 5000, 12000]))
    loc, scale = rng.normal(size=(npdf, 1)) * 5, rng.uniform(0.1, 1, size=(npdf, 1))
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=scale))
    z = rng.normal(size=npdf)
    truth = loc[:, 0] + scale[:, 0] * z
    ctx.close("pairs", pit_samples(ens, truth), sps.norm.cdf(z), rtol=1e-9, atol=1e-12, msg="PIT samples of %i normal PDFs" % npdf)
    perm = rng.permutation(npdf)
    ctx.close("pairs", pit_samples(ens[perm], truth[perm]), sps.norm.cdf(z)[perm], rtol=1e-9, atol=1e-12, msg="PIT samples of permuted PDFs")
    if npdf >= 100:
        obj = PIT(ens, truth)
        ctx.close("pairs", obj.pit_samps, sps.norm.cdf(z), rtol=1e-9, atol=1e-12, msg="PIT of %i normal PDFs" % npdf)
        judge_ensemble(ctx, obj.pit, sps.norm.cdf(z), None, "PIT of %i normal PDFs" % npdf)
        x = np.sort(sps.norm.cdf(z))
        ks = max(np.max(np.arange(1, npdf + 1) / npdf - x), np.max(x - np.arange(npdf) / npdf))
        cvm = 1 / (12.0 * npdf) + np.sum(((2 * np.arange(1, npdf + 1) - 1) / (2.0 * npdf) - x) ** 2)
        ctx.close("ks", obj.evaluate_PIT_KS().statistic, ks, rtol=1e-8, msg="KS of the PIT of %i normal PDFs" % npdf)
        ctx.close("cvm", obj.evaluate_PIT_CvM().statistic, cvm, rtol=1e-8, msg="CvM of the PIT of %i normal PDFs" % npdf)
    ctx.seen("pairs", npdf)


WORKLOADS = [("pit", pit), ("pairs", pairs)]
