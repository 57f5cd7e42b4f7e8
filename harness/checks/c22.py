"""C22: point-estimate metrics equal their definitions; the factory makes the metric that was asked for."""
import contextlib
import io
import os
import re
import subprocess
import sys

import numpy as np

import qp
from gens import gen_case

M = qp.metrics


def sample(rng):
    """Estimates and references of all sorts"""
    num = int(rng.choice([1, 2, 3, 4, 7, 10, 51, 200, 1000, 5000, 30000]))
    ref = rng.uniform(0, 3, size=num)
    style = int(rng.integers(0, 7))
    if style == 0:
        ez = 0.05 * rng.normal(size=num)
    elif style == 1:
        ez = 0.03 * rng.standard_t(1.5, size=num)
    elif style == 2:
        # a very tight core, so that the limit of 0.06 counts
        ez = np.where(rng.random(num) < 0.2, rng.choice([0.05, 0.059, 0.061, -0.059, -0.061, 0.3, 0.0599, -0.0601, 0.063], size=num), 1e-4 * rng.normal(size=num))
    elif style == 3:
        # ties
        ez = rng.choice([-0.1, 0.0, 0.0, 0.02, 0.2], size=num)
    elif style == 4:
        # a wide core, so that 3 sigma counts, and a bias
        ez = 0.3 + 0.2 * rng.normal(size=num)
    elif style == 5:
        # asymmetric, sorted
        ez = np.sort(0.1 * rng.exponential(size=num))[:: int(rng.choice([-1, 1]))]
    else:
        ez = np.concatenate([0.02 * rng.normal(size=num - num // 3), -0.08 + 0.05 * rng.normal(size=num // 3)])
    if rng.random() < 0.1:
        ref = ref - 0.9
    est = ref + ez * (1 + ref)
    whole = rng.random()
    if whole < 0.08:
        # whole numbers on one side, or on both
        est = np.round(est * 4).astype(rng.choice(["i8", "i4"]))
        ref = ref * 4
    elif whole < 0.16:
        ref = np.round(np.maximum(ref, 0) * 4).astype(rng.choice(["i8", "i4"]))
        est = est * 4
    elif whole < 0.2:
        est, ref = np.round(est * 10).astype("i8"), np.round(np.maximum(ref, 0) * 10).astype("i8")
    return est, ref, style


def linear_quantile(x, q):
    """The usual interpolated quantile"""
    x = sorted(float(v) for v in x)
    pos = q * (len(x) - 1)
    i = int(np.floor(pos))
    if i + 1 >= len(x):
        return x[-1]
    return x[i] + (pos - i) * (x[i + 1] - x[i])


def definitions(ctx):
    rng = ctx.rng
    est, ref, style = sample(rng)
    given = est.copy(), ref.copy()
    ez = [(float(e) - float(r)) / (1.0 + float(r)) for e, r in zip(est, ref)]
    med = linear_quantile(ez, 0.5)
    sig = (linear_quantile(ez, 0.75) - linear_quantile(ez, 0.25)) / 1.349
    mad = 1.4826 * linear_quantile([abs(v - med) for v in ez], 0.5)
    cut = max(0.06, 3 * sig)
    close = [v for v in ez if abs(abs(v) - cut) < 1e-9]
    rate = sum(abs(v) > cut for v in ez) / len(ez)
    lab = "%i points of style %i" % (len(ez), style)
    scale = max(abs(v) for v in ez)
    names = ["point_stats_ez", "point_bias", "point_stats_iqr", "point_stats_sigma_mad", "point_outlier_rate"]
    for name in rng.permutation(names):
        metric = M.create_metric(str(name)) if rng.random() < 0.5 else dict(point_stats_ez=M.PointStatsEz, point_bias=M.PointBias, point_stats_iqr=M.PointSigmaIQR, point_stats_sigma_mad=M.PointSigmaMAD, point_outlier_rate=M.PointOutlierRate)[str(name)]()
        got = metric.evaluate(est, ref)
        if name == "point_outlier_rate" and close:
            continue
        want = dict(point_stats_ez=ez, point_bias=med, point_stats_iqr=sig, point_stats_sigma_mad=mad, point_outlier_rate=rate)[str(name)]
        ctx.close(name, got, want, rtol=1e-9, atol=1e-12 * (1 + scale), msg="%s of %s" % (name, lab))
        ctx.true("input", np.array_equal(est, given[0]) and np.array_equal(ref, given[1]), "%s modified its arguments" % name)
        # the order of the pairs does not matter
        perm = rng.permutation(len(ez))
        again = metric.evaluate(est[perm], ref[perm])
        ctx.close(name, again, np.array(ez)[perm] if name == "point_stats_ez" else want, rtol=1e-9, atol=1e-12 * (1 + scale), msg="%s of %s in another order" % (name, lab))
        ctx.ev("metrics", 2)
    # single precision, and integers
    if style != 3 and len(ez) > 4:
        got = M.PointBias().evaluate(est.astype("f4"), ref.astype("f4"))
        ctx.close("f4", got, med, rtol=1e-4, atol=1e-4 * (1 + scale), msg="point_bias in single precision")
    ctx.seen("definitions", style, len(ez))


# the options of each metric, and where they act
OPTIONS = dict(
    moment=[dict(moment_order=2), dict(limits=(0.0, 2.0), dx=0.05), dict()],
    kld=[dict(limits=(0.0, 2.0), dx=0.05), dict()],
    rmse=[dict(limits=(0.0, 2.0), dx=0.05), dict()],
    rbpe=[dict(limits=(0.0, 2.0))],
    brier=[dict(limits=(0.0, 2.0), dx=0.05), dict()],
    outlier=[dict(cdf_limits=(0.4, 1.3)), dict()],
    ad=[dict(num_samples=7, _random_state=3)],
    cvm=[dict(num_samples=7, _random_state=3)],
    ks=[dict(num_samples=7, _random_state=3)],
    pit=[dict(eval_grid=np.linspace(0, 1, 5)), dict()],
    cdeloss=[dict(eval_grid=np.linspace(0, 2, 31)), dict()],
)


def factory(ctx):
    """Every listed name makes the metric with that name and these options"""
    rng = ctx.rng
    npdf = 6
    loc, scale = rng.uniform(0.5, 1.5, size=(npdf, 1)), rng.uniform(0.1, 0.3, size=(npdf, 1))
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=scale))
    other = qp.Ensemble(qp.stats.norm, data=dict(loc=loc + 0.05, scale=scale * 1.5))
    truth = loc[:, 0] + scale[:, 0] * rng.normal(size=npdf)
    truth = np.clip(truth, 0.1, 1.9)
    order = int(rng.integers(0, 3))
    if order == 0:
        M.update_metrics()
    elif order == 1:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            M.print_metrics(force_update=bool(rng.integers(2)))
        for name in M.list_metrics():
            ctx.true("print", name in out.getvalue(), "print_metrics() does not show %s" % name)
    names = M.list_metrics(force_update=bool(rng.integers(2)))
    needed = set(OPTIONS) | {"point_stats_ez", "point_bias", "point_stats_iqr", "point_stats_sigma_mad", "point_outlier_rate"}
    ctx.true("names", needed <= set(names) and len(names) == len(set(names)), "names: %s, missing %s" % (names, needed - set(names)))
    for name in names:
        metric = M.create_metric(name, force_update=bool(rng.integers(2)))
        ctx.true("name", metric.metric_name == name, "create_metric(%r) is a %s" % (name, metric.metric_name))
        kind = metric.metric_input_type.name
        uses = [metric.uses_distribution_for_estimate(), metric.uses_point_for_estimate(), metric.uses_distribution_for_reference(), metric.uses_point_for_reference()]
        want = dict(single_ensemble=[1, 0, 0, 0], dist_to_point=[1, 0, 0, 1], dist_to_dist=[1, 0, 1, 0], point_to_point=[0, 1, 0, 1], point_to_dist=[0, 1, 1, 0])
        ctx.true("uses", kind in want and [int(u) for u in uses] == want[kind], "%s is %s, uses %s" % (name, kind, uses))
        ctx.seen("factory", name)
    tasks = []
    for name, opts in OPTIONS.items():
        for kwds in opts:
            tasks.append((name, kwds))
    for i in rng.permutation(len(tasks))[:8]:
        name, kwds = tasks[i]
        got = M.create_metric(name, **kwds)
        lab = "%s with %s" % (name, list(kwds))
        lim, dx = kwds.get("limits", (0.0, 3.0)), kwds.get("dx", 0.01)
        if name == "moment":
            a, b = got.evaluate(ens), M.calculate_moment(ens, kwds.get("moment_order", 1), lim, dx)
        elif name == "kld":
            a, b = got.evaluate(ens, other), M.calculate_kld(ens, other, lim, dx)
        elif name == "rmse":
            a, b = got.evaluate(ens, other), M.calculate_rmse(ens, other, lim, dx)
        elif name == "rbpe":
            a, b = got.evaluate(ens[0]), M.calculate_rbpe(ens[0], lim)
        elif name == "brier":
            a, b = got.evaluate(ens, truth), M.calculate_brier(ens, truth, lim, dx)
        elif name == "outlier":
            cuts = kwds.get("cdf_limits", (0.0001, 0.9999))
            a, b = got.evaluate(ens), M.calculate_outlier_rate(ens, *cuts)
        elif name in ("ad", "cvm", "ks"):
            a, b = got.evaluate(ens, other), M.calculate_goodness_of_fit(ens, other, name, 7, 3)
        elif name == "pit":
            from qp.metrics.pit import PIT

            pit = got.evaluate(ens, truth)
            ref = PIT(ens, truth, kwds["eval_grid"]).pit if kwds else PIT(ens, truth).pit
            a, b = np.ravel(pit.objdata()["locs"]), np.ravel(ref.objdata()["locs"])
        else:
            grid = kwds.get("eval_grid", np.linspace(0, 2.5, 301))
            pdfs = np.array([np.asarray(qp.Ensemble(qp.stats.norm, data=dict(loc=loc[[k]], scale=scale[[k]])).pdf(grid))[0] for k in range(npdf)])
            near = [int(np.argmin(np.abs(grid - t))) for t in truth]
            a = got.evaluate(ens, truth)
            b = np.mean(np.sum(0.5 * np.diff(grid) * (pdfs[:, 1:] ** 2 + pdfs[:, :-1] ** 2), axis=1)) - 2 * np.mean(pdfs[np.arange(npdf), near])
        ctx.close("options", a, b, rtol=1e-9, atol=1e-11, msg=lab)
        ctx.ev("metrics")
        ctx.seen("options", name, sorted(kwds))
    for name in ("", "KLD", "nothing", "point_stats", "moment ", None):
        ctx.raises("unknown", KeyError, lambda: M.create_metric(name), "create_metric(%r)" % (name,))
    ctx.true("names", set(M.list_metrics()) == set(names), "the names changed")


def registered(ctx):
    """New metrics become known, and stay apart"""
    name = "verif_metric_%i" % ctx.index

    class Mine(M.SingleEnsembleMetric):
        metric_name = name

        def __init__(self, factor=1.0):
            super().__init__()
            self.factor = factor

        def evaluate(self, estimate):
            return self.factor * estimate.npdf

    case = gen_case(ctx)
    ens = case.make()
    made = M.create_metric(name, force_update=True, factor=2.5)
    ctx.close("registered", made.evaluate(ens), 2.5 * case.npdf, msg="a registered metric")
    two = M.create_metric(name)
    ctx.close("registered", [two.evaluate(ens), made.evaluate(ens)], [case.npdf, 2.5 * case.npdf], msg="two metrics with different options")
    ctx.true("registered", name in M.list_metrics(), "%s is not listed" % name)
    first, second = M.create_metric("moment", moment_order=1), M.create_metric("moment", moment_order=2, limits=(float(case.lo), float(case.hi)), dx=case.width() / 10.5)
    ctx.close("apart", second.evaluate(ens), M.calculate_moment(ens, 2, (float(case.lo), float(case.hi)), case.width() / 10.5), rtol=1e-10, msg="moment with options")
    ctx.close("apart", first.evaluate(ens), M.calculate_moment(ens, 1, (0.0, 3.0), 0.01), rtol=1e-10, msg="moment with default options, after another was made")
    ctx.seen("registered", case.label)


FIRST = [
    ("list_metrics()", "print(' '.join(M.list_metrics()))"),
    ("print_metrics()", "M.print_metrics()"),
    ("create_metric()", "print(' '.join(n for n in %r if M.create_metric(n).metric_name == n))"),
    ("create_metric() of an unknown name", "try:\n    M.create_metric('no such metric')\nexcept KeyError as exc:\n    print(exc)"),
]


def first(ctx):
    """The first thing a program asks of the metric factory"""
    what, code = FIRST[ctx.index % len(FIRST)]
    names = sorted(OPTIONS)
    code = "from qp import metrics as M\n" + (code % (names,) if "%r" in code else code) + "\n"
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(qp.__file__))))
    done = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, cwd=ctx.scratch, capture_output=True, text=True, timeout=300, check=False)
    if ctx.true("first", done.returncode == 0, "%s, as the first call: %s" % (what, done.stderr[-300:])):
        shown = re.split("[^a-z_]+", done.stdout)
        ctx.true("first", set(names) <= set(shown), "%s, as the first call, does not know %s" % (what, sorted(set(names) - set(shown))))
    ctx.ev("processes")
    ctx.seen("first", what)


WORKLOADS = [("definitions", definitions), ("factory", factory), ("registered", registered), ("first", first)]
