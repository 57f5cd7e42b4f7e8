"""C19: goodness-of-fit statistics are the one-sample statistics of the drawn samples."""
import warnings

import numpy as np
from scipy import stats as sps

import qp
from qp.metrics import array_metrics
from gens import GENS, gen_case
from qp.metrics.goodness_of_fit import goodness_of_fit_metrics

M = qp.metrics
CLASSES = dict(ks=M.KSMetric, cvm=M.CvMMetric, ad=M.ADMetric)


def statistic(metric, samples, cdf, logcdf=None, logsf=None):
    """The one-sample statistic"""
    x = np.sort(np.ravel(samples))
    n = len(x)
    if metric == "ks":
        return sps.ks_1samp(x, cdf).statistic
    if metric == "cvm":
        if n == 1:
            return 1 / 12.0 + (0.5 - float(cdf(x)[0])) ** 2
        return sps.cramervonmises(x, cdf).statistic
    total = 0.0
    low, high = logcdf(x), logsf(x)
    for i in range(1, n + 1):
        total += (2 * i - 1) / n * (low[i - 1] + high[n - i])
    return -n - total


def reference(ctx, case, npdf):
    """A reference ensemble covering the range of the estimates"""
    rng = ctx.rng
    w = case.width()
    style = int(rng.integers(0, 4))
    if style == 0 and npdf == case.npdf:
        return case.make(), [case.single(i) for i in range(npdf)], "itself"
    if style == 1:
        means = rng.uniform(case.lo, case.hi, size=(npdf, 2))
        data = dict(means=means, stds=w * rng.uniform(0.2, 0.6, size=(npdf, 2)), weights=rng.uniform(0.2, 1, size=(npdf, 2)))
        return qp.Ensemble(qp.mixmod, data=data), [qp.Ensemble(qp.mixmod, data={k: v[[i]] for k, v in data.items()}) for i in range(npdf)], "mixmod"
    if style == 2:
        bins = np.linspace(case.lo - 0.5 * w, case.hi + 0.5 * w, int(rng.integers(4, 10)))
        pdfs = rng.uniform(0.1, 1, size=(npdf, len(bins) - 1))
        return qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=pdfs)), [qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=pdfs[[i]])) for i in range(npdf)], "hist"
    loc = rng.uniform(case.lo, case.hi, size=(npdf, 1))
    scale = w * rng.uniform(0.3, 0.8, size=(npdf, 1))
    data = dict(loc=loc, scale=scale)
    return qp.Ensemble(qp.stats.norm, data=data), [qp.Ensemble(qp.stats.norm, data={k: v[[i]] for k, v in data.items()}) for i in range(npdf)], "norm"


def fit(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=["hist", "interp", "irr", "mixmod", "packed", "scipy", "scipy", "sparse", "quant"])
    est = case.make()
    nref = case.npdf if rng.random() < 0.6 else 1
    ref, ones, kind = reference(ctx, case, nref)
    live = case.make()
    for itry in range(3):
        num = int(rng.choice([1, 2, 3, case.npdf, case.npdf + 1, 20, 100]))
        if case.npdf < 5 and case.kind in ("hist", "interp") and rng.random() < 0.1:
            num = 6000
        seed = int(rng.integers(0, 1000))
        metric = ["ks", "cvm", "ad"][itry]
        lab = "%s of %s against %s (%i vs %i, %i samples)" % (metric, case.label, kind, case.npdf, nref, num)
        ctx.note(lab, "seed", seed)
        samples = np.asarray(live.rvs(size=num, random_state=seed))
        if samples.shape != (case.npdf, num) or not np.all(np.isfinite(samples)):
            ctx.fail("samples", "%s: samples of shape %s" % (lab, samples.shape))
            continue
        want = []
        for i in range(case.npdf):
            one = ones[i if nref > 1 else 0]
            f = lambda name: (lambda x: np.asarray(getattr(one, name)(np.atleast_1d(x)))[0])
            want.append(statistic(metric, samples[i], f("cdf"), f("logcdf"), f("logsf")))
        got = []
        style = int(rng.integers(0, 3))
        if style == 0:
            got.append(M.calculate_goodness_of_fit(est, ref, fit_metric=metric, num_samples=num, _random_state=seed))
        elif style == 1:
            got.append(CLASSES[metric](num_samples=num, _random_state=seed).evaluate(est, ref))
        else:
            evaluator = M.create_metric(metric, num_samples=num)
            evaluator.random_state = seed
            got += [evaluator.evaluate(est, ref), evaluator.evaluate(est, ref)]
            ctx.true("random_state", evaluator.random_state == seed, "%s: random_state is %s" % (lab, evaluator.random_state))
        for val in got:
            ctx.close(metric, val, want, rtol=1e-8, atol=1e-9, msg=lab)
        # the defaults
        if rng.random() < 0.3:
            want100 = M.calculate_goodness_of_fit(est, ref, metric, 100, seed)
            ctx.close("default", CLASSES[metric](_random_state=seed).evaluate(est, ref), want100, rtol=1e-12, atol=0, msg=lab + ": default number of samples")
            if metric == "ks":
                ctx.close("default", M.calculate_goodness_of_fit(est, ref, _random_state=seed), want100, rtol=1e-12, atol=0, msg=lab + ": default metric")
        ctx.ev("statistics", case.npdf)
        ctx.seen(case.label, metric, kind, "1" if nref == 1 else "N", "n1" if case.npdf == 1 else "n", num if num < 4 else "many")


def direct(ctx):
    """The statistics of given samples"""
    rng = ctx.rng
    npdf = int(rng.choice([1, 2, 5]))
    num = int(rng.choice([1, 2, npdf, 30, 30, 300, 3000, 12000]))
    loc, scale = rng.normal(size=(npdf, 1)), rng.uniform(0.5, 2, size=(npdf, 1))
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=scale))
    data = rng.normal(size=(npdf, num)) * scale * 1.1 + loc
    given = data.copy()
    for metric in ("ks", "cvm", "ad"):
        got = goodness_of_fit_metrics[metric](ens, data)
        want = [statistic(metric, data[i], *[getattr(sps.norm(loc[i, 0], scale[i, 0]), name) for name in ("cdf", "logcdf", "logsf")]) for i in range(npdf)]
        ctx.close(metric, got, want, rtol=1e-8, atol=1e-10, msg="%s of %s samples" % (metric, data.shape))
        ctx.true("input", np.array_equal(data, given), "%s modified the samples" % metric)
        if num > 1:
            perm = rng.permutation(num)
            ctx.close(metric, goodness_of_fit_metrics[metric](ens, data[:, perm]), want, rtol=1e-8, atol=1e-10, msg="%s of shuffled samples" % metric)
    if num > 2:
        # two samples of one row
        two = [rng.normal(size=num), rng.normal(size=int(rng.integers(3, 40))) * rng.uniform(0.5, 2)]
        kwds = dict(midrank=bool(rng.integers(2))) if rng.random() < 0.5 else {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, want = array_metrics.quick_anderson_ksamp(*two, **kwds), sps.anderson_ksamp(two, **kwds)
        for name in ("statistic", "critical_values", "significance_level"):
            ctx.close("ksamp", getattr(got, name), getattr(want, name), rtol=1e-12, atol=1e-14, msg="quick_anderson_ksamp(%s): %s" % (kwds, name))
    ctx.seen("direct", npdf, num)


def rejects(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    for name in ("KS", "k", "", "anderson", None, "ks "):
        ctx.raises("name", KeyError, lambda: M.calculate_goodness_of_fit(ens, ens, fit_metric=name), "%s: goodness of fit %r" % (case.label, name))
    # helpers of the module, where there are any
    check = getattr(M, "_check_ensembles_contain_correct_number_of_distributions", None)
    same = getattr(M, "_check_ensembles_are_same_size", None)
    nested = getattr(M, "_check_ensemble_is_not_nested", None)
    for a, b in ((1, 2), (2, 3), (3, 2), (4, 1), (1, 1), (3, 3)):
        p, q = [qp.Ensemble(qp.stats.norm, data=dict(loc=np.zeros((n, 1)), scale=np.ones((n, 1)))) for n in (a, b)]
        if check is None:
            pass
        elif b in (1, a):
            ctx.true("number", check(p, q) is None, "%i against %i was rejected" % (a, b))
        else:
            ctx.raises("number", ValueError, lambda: check(p, q), "%i against %i" % (a, b))
        if same is None:
            pass
        elif a == b:
            ctx.true("number", same(p, q) is None, "%i and %i differ" % (a, b))
        else:
            ctx.raises("number", ValueError, lambda: same(p, q), "sizes %i and %i" % (a, b))
    if nested is not None:
        ctx.true("nested", nested(ens) is None, "%s is nested" % case.label)
    ctx.seen("rejects", case.label)


WORKLOADS = [("fit", fit), ("direct", direct), ("rejects", rejects)]
