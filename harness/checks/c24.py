"""C24: means, variances and moments match the distribution of each PDF."""
import numpy as np
from numpy.polynomial.legendre import leggauss

from gens import GENS, gen_case
from lib import snapshot, state_equal
from monitors import fingerprint

FAST = ["hist", "interp", "packed", "sparse"]
GRIDDED = FAST + ["scipy"]
# shapes for which scipy has closed forms of the moments, so that both ways agree to rounding
CLOSED = ["norm", "uniform", "expon", "logistic", "gamma", "beta", "lognorm", "triang", "laplace", "t"]


def column(values):
    return np.asarray(values, float).reshape(-1, 1)


def reference(case, num):
    return np.array([case.ref.moment(i, num) for i in range(case.npdf)])


def size(case, num):
    """The scale of the num-th moment, for rounding"""
    return max(abs(case.lo), abs(case.hi)) ** num


def central(raw):
    """mean, variance, skewness and excess kurtosis from the raw moments 1 to 4, and their rounding"""
    m1, m2, m3, m4 = raw
    var = m2 - m1**2
    mu3 = m3 - 3 * m1 * m2 + 2 * m1**3
    mu4 = m4 - 4 * m1 * m3 + 6 * m1**2 * m2 - 3 * m1**4
    with np.errstate(all="ignore"):
        return m1, var, mu3 / var**1.5, mu4 / var**2 - 3.0


def check_fast(ctx, case, ens, lab):
    """Representations whose moments are sums over their own bins or grid"""
    raw = [reference(case, m) for m in (1, 2, 3, 4)]
    mean, var, skew, kurt = central(raw)
    err1, err2 = 1e-10 * size(case, 1), 1e-9 * size(case, 2)
    ctx.close("mean", ens.mean(), column(mean), rtol=0, atol=err1, msg="%s: mean" % lab)
    ctx.close("var", ens.var(), column(var), rtol=0, atol=err2, msg="%s: var" % lab)
    ok = var > 1e4 * err2
    got = np.asarray(ens.std())
    if ctx.true("std", got.shape == (case.npdf, 1), "%s: std of shape %s" % (lab, got.shape)):
        ctx.close("std", got[ok], column(np.sqrt(np.where(ok, var, 1)))[ok], rtol=1e-3, msg="%s: std" % lab)
        ctx.close("std", got[ok] ** 2, np.asarray(ens.var())[ok], rtol=1e-9, msg="%s: std is the square root of var" % lab)
    for num in (1, 2, 3, 4, 5, 6):
        ctx.close("moment", ens.moment(num), column(reference(case, num)), rtol=0, atol=1e-9 * size(case, num), msg="%s: moment %i" % (lab, num))
    for names in ("m", "v", "mv", "s", "k", "mvsk"):
        out = ens.stats(moments=names)
        out = out if isinstance(out, tuple) else (out,)
        if not ctx.true("stats", len(out) == len(names), "%s: stats(%s) returned %i values" % (lab, names, len(out))):
            continue
        for name, val in zip(names, out):
            val = np.asarray(val)
            want = dict(m=mean, v=var, s=skew, k=kurt)[name]
            if not ctx.true("stats", val.shape == (case.npdf, 1), "%s: stats %s of shape %s" % (lab, name, val.shape)):
                continue
            if name in "mv":
                ctx.close("stats", val, column(want), rtol=0, atol=err1 if name == "m" else err2, msg="%s: stats %s" % (lab, name))
                continue
            # rounding of differences of large numbers
            with np.errstate(all="ignore"):
                err = 1e-11 * size(case, 3 if name == "s" else 4) / var ** (1.5 if name == "s" else 2)
            good = (var > 1e6 * err2) & (err < 1e-3)
            if np.any(good):
                ctx.true("stats", np.all(np.abs(val[:, 0] - want)[good] <= 1e-2 + 0 * want[good]), "%s: stats %s: %s, expected %s" % (lab, name, val[good, 0], want[good]))
    # a check of the reference itself: moments of the pdf up to the discretisation
    for i in range(case.npdf):
        ctx.ev("rows")


def fast(ctx):
    rng = ctx.rng
    case = gen_case(ctx, kinds=FAST)
    ens = case.make()
    lab = case.label
    before, hsh = snapshot(ens), fingerprint(ens)
    check_fast(ctx, case, ens, lab)
    ctx.true("unchanged", fingerprint(ens) == hsh, "%s: moments changed the ensemble" % lab)
    state_equal(ctx, "unchanged", snapshot(ens), before, "%s after moments" % lab)
    if case.npdf > 1:
        rows = rng.integers(0, case.npdf, size=int(rng.integers(1, 4)))
        check_fast(ctx, case.subset(rows), ens[rows], "%s rows %s" % (lab, rows))
    if rng.random() < 0.3:
        other = case.make(rows=[0])
        ens.append(other)
        check_fast(ctx, case.subset(list(range(case.npdf)) + [0]), ens, "%s after append" % lab)
    ctx.seen("fast", lab, "n1" if case.npdf == 1 else "n")


def convergence(ctx):
    """On a fine grid the moments are those of the underlying distribution"""
    rng = ctx.rng
    mix = GENS["mixmod"](rng, npdf=int(rng.integers(1, 5)))
    lo, hi = min(mix.ref.span(i)[0] for i in range(mix.npdf)), max(mix.ref.span(i)[1] for i in range(mix.npdf))
    num = 1201
    grid = np.linspace(lo, hi, num)
    if rng.random() < 0.5:
        steps = rng.uniform(0.5, 1.5, size=num - 1)
        grid = lo + (hi - lo) * np.concatenate([[0], np.cumsum(steps)]) / np.sum(steps)
    import qp

    if ctx.index % 2:
        cdf = mix.ref_cdf(grid)
        ens = qp.Ensemble(qp.hist, data=dict(bins=grid, pdfs=np.diff(cdf, axis=1) / np.diff(grid)))
    else:
        ens = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=mix.ref_pdf(grid)))
    lab = "fine %s of mixmod" % ens.gen_class.name
    step = np.max(np.diff(grid))
    mean = np.array([mix.ref.mean(i) for i in range(mix.npdf)])
    var = np.array([mix.ref.var(i) for i in range(mix.npdf)])
    ctx.close("mean", ens.mean(), column(mean), rtol=1e-7, atol=0.05 * step, msg="%s: mean" % lab)
    ctx.close("var", ens.var(), column(var), rtol=1e-7, atol=step**2 + 0.05 * step * (hi - lo), msg="%s: var" % lab)
    ctx.close("moment", ens.moment(2), column(var + mean**2), rtol=1e-7, atol=step**2 + 0.2 * step * max(abs(lo), abs(hi)), msg="%s: moment 2" % lab)
    ctx.seen("convergence", ens.gen_class.name, mix.npdf)


def scipy_exact(ctx):
    rng = ctx.rng
    case = GENS["scipy"](rng, name=CLOSED[ctx.index % len(CLOSED)])
    ens = case.make()
    lab = case.label
    fro = case.ref.frozen
    ctx.close("mean", ens.mean(), column([f.mean() for f in fro]), rtol=1e-10, msg="%s: mean" % lab)
    ctx.close("var", ens.var(), column([f.var() for f in fro]), rtol=1e-9, msg="%s: var" % lab)
    ctx.close("std", ens.std(), column([f.std() for f in fro]), rtol=1e-9, msg="%s: std" % lab)
    for num in (1, 2, 3, 4):
        want = column([f.moment(num) for f in fro])
        ctx.close("moment", ens.moment(num), want, rtol=1e-7, atol=1e-9 * size(case, num), msg="%s: moment %i" % (lab, num))
    for names in ("m", "mv", "mvsk", "sk", "vk"):
        got = ens.stats(moments=names)
        want = [f.stats(moments=names) for f in fro]
        if ctx.true("stats", isinstance(got, tuple) == (len(names) > 1), "%s: stats(%s) is a %s" % (lab, names, type(got))):
            got = got if isinstance(got, tuple) else (got,)
            want = [w if isinstance(w, tuple) else (w,) for w in want]
            if ctx.true("stats", len(got) == len(names), "%s: stats(%s): %i values" % (lab, names, len(got))):
                for j, name in enumerate(names):
                    ctx.close("stats", got[j], column([w[j] for w in want]), rtol=1e-7, atol=1e-9, msg="%s: stats %s of %s" % (lab, name, names))
    got = ens.stats()
    ctx.close("stats", got[1], column([f.var() for f in fro]), rtol=1e-9, msg="%s: default stats" % lab)
    ctx.seen("scipy", case.label, "n1" if case.npdf == 1 else "n")


def linear_cdf_moment(xs, cums, num):
    """The moment of the distribution whose cdf is linear between the points"""
    mass = np.diff(cums)
    a, b = xs[:-1], xs[1:]
    return np.sum(mass * (b ** (num + 1) - a ** (num + 1)) / ((num + 1) * (b - a)))


def slow(ctx):
    """Representations whose moments are integrated numerically, by scipy"""
    rng = ctx.rng
    kind = ["irr", "mixmod", "quant", "spline"][ctx.index % 4]
    npdf = 1 if kind == "mixmod" else int(rng.integers(1, 4))
    case = GENS[kind](rng, npdf=npdf)
    ens = case.make()
    lab = case.label
    nodes, wts = leggauss(200)
    means, seconds, errs = [], [], []
    width = case.width()
    big = max(abs(case.lo), abs(case.hi)) + width
    for i in range(npdf):
        if kind == "mixmod":
            means.append(case.ref.mean(i))
            seconds.append(case.ref.var(i) + case.ref.mean(i) ** 2)
            errs.append(case.ref.step())
        elif kind == "irr":
            xs, cums = case.ref.xs[i], case.ref.cums[i]
            means.append(linear_cdf_moment(xs, cums, 1))
            seconds.append(linear_cdf_moment(xs, cums, 2))
            # the known finding of C04, in the first interval; and the corners of the cdf
            # (the ends of the support are those of all of the PDFs)
            errs.append(1e-3 * width + cums[1] * width)
        elif kind == "spline":
            x = case.lo + 0.5 * width * (nodes + 1)
            pdf = case.ref.pdf(i, x) * 0.5 * width * wts
            means.append(np.sum(x * pdf))
            seconds.append(np.sum(x**2 * pdf))
            errs.append(2e-3 * width)
        else:
            means.append(linear_cdf_moment(case.ref.l[i], case.ref.q, 1))
            seconds.append(linear_cdf_moment(case.ref.l[i], case.ref.q, 2))
            errs.append(0.5 * np.sum(np.diff(case.ref.q) * np.diff(case.ref.l[i])))
    means, seconds, errs = column(means), column(seconds), column(errs)
    ctx.close("mean", ens.mean(), means, rtol=1e-6, atol=errs, msg="%s: mean" % lab)
    ctx.close("moment", ens.moment(1), means, rtol=1e-6, atol=errs, msg="%s: moment 1" % lab)
    if ctx.tier == "thorough" or ctx.index % 8 < 4:
        ctx.close("moment", ens.moment(2), seconds, rtol=1e-6, atol=2 * errs * big, msg="%s: moment 2" % lab)
    if kind != "mixmod" or ctx.tier == "thorough":
        ctx.close("var", ens.var(), seconds - means**2, rtol=1e-6, atol=4 * errs * big, msg="%s: var" % lab)
    ctx.seen("slow", case.label, npdf)


def partial(ctx):
    """moment_partial is the sum over its documented grid"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    width = case.width()
    first, last = np.sort(rng.uniform(0, 1, size=2))
    if last - first < 0.1:
        first, last = 0.05, 0.93
    low, high = case.lo + width * first, case.lo + width * last
    if case.kind == "quant" or case.kind == "spline":
        inner = [case.ref.span(i) for i in range(case.npdf)]
        a, b = max(s[0] for s in inner), min(s[1] for s in inner)
        if b - a < 0.05 * width:
            return
        low, high = a + (b - a) * (0.01 + 0.98 * first), a + (b - a) * (0.01 + 0.98 * last)
    dx = (high - low) / rng.uniform(20, 200)
    default = (high - low) > 0.5 and (high - low) < 50 and rng.random() < 0.3
    if default:
        dx = 0.01
    count = int((high - low) / dx)
    grid = np.linspace(low, high, count)
    pdf = np.array([case.single(i).pdf(grid).ravel() for i in range(case.npdf)])
    if rng.random() < 0.5:
        # a cached grid which is nearly the same
        ens.gridded(np.linspace(low, high + 0.2 * (high - low), count))
    lab = "%s: moment_partial" % case.label
    for num in (1, 0, 3, 2):
        got = ens.moment_partial(num, (low, high)) if default else ens.moment_partial(num, (low, high), dx=dx)
        want = np.sum(pdf * grid**num, axis=1) * dx
        scale = np.sum(np.abs(pdf * grid**num), axis=1) * dx
        got = np.asarray(got)
        ctx.close("partial", got.reshape(-1), want, rtol=0, atol=1e-9 * scale + 1e-300, msg="%s: order %i" % (lab, num))
    ctx.seen("partial", case.label, "n1" if case.npdf == 1 else "n", bool(default))


WORKLOADS = [("fast", fast), ("convergence", convergence), ("scipy_exact", scipy_exact), ("slow", slow), ("partial", partial)]
