"""C05: the derived evaluators agree with pdf, cdf and ppf."""
import numpy as np

from gens import gen_case

FAST = ("hist", "interp", "packed_interp", "sparse")


def layout(rng, case, n, draw):
    style = int(rng.integers(0, 4))
    if style == 0:
        return float(draw(1)[0])
    if style == 1:
        return draw(n)
    if style == 2:
        return draw(case.npdf).reshape(case.npdf, 1)
    return draw(case.npdf * n).reshape(case.npdf, n)


def identities(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    lab, w = case.label, case.width()
    ens = case.make()
    slow = case.kind == "spline"
    x = layout(rng, case, 5, lambda n: case.points(rng, n))
    q = layout(rng, case, 4, lambda n: rng.uniform(0.02, 0.98, size=n))
    if slow and np.size(q) > 4:
        q = float(rng.uniform(0.05, 0.95))
    xtol = 1e-7 * w
    todo = ["sf", "isf", "logpdf", "logcdf", "logsf", "median", "interval", "integrate", "std", "stats", "mean", "frozen"]
    base = {}

    def get(name):
        # the base values are asked for when first needed: nothing may depend on the order
        if name not in base:
            base[name] = np.array(getattr(ens, name)(q if name == "ppf" else x), dtype=float)
        return base[name]

    with np.errstate(all="ignore"):
        for name in rng.permutation(todo):
            name = str(name)
            if name == "sf":
                ctx.close(name, ens.sf(x), 1 - get("cdf"), rtol=0, atol=1e-12, msg="%s: sf and 1 - cdf" % lab, x=x)
            elif name == "isf":
                got = ens.isf(1 - np.asarray(q) if np.ndim(q) else 1 - q)
                ctx.close(name, got, get("ppf"), rtol=1e-8, atol=xtol, msg="%s: isf(1 - q) and ppf(q)" % lab, q=q)
            elif name == "logpdf":
                pdf = get("pdf")
                ok = pdf >= 0
                ctx.close(name, np.where(ok, np.exp(ens.logpdf(x)), 0), np.where(ok, pdf, 0), rtol=1e-9, atol=1e-12 / w, msg="%s: logpdf and log(pdf)" % lab, x=x)
            elif name == "logcdf":
                cdf = get("cdf")
                ok = cdf >= 0
                ctx.close(name, np.where(ok, np.exp(ens.logcdf(x)), 0), np.where(ok, cdf, 0), rtol=0, atol=1e-10, msg="%s: logcdf and log(cdf)" % lab, x=x)
            elif name == "logsf":
                sf = 1 - get("cdf")
                # rounding may not take the cdf above one where it is a sum of parts
                clamped = case.kind in ("hist", "interp_irregular", "mixmod", "spline")
                ok = sf > (-1e-9 if clamped else 1e-13)
                ctx.close(name, np.where(ok, np.exp(ens.logsf(x)), 0), np.where(ok, sf, 0), rtol=0, atol=1e-10, msg="%s: logsf and log(1 - cdf)" % lab, x=x)
            elif name == "median":
                if not slow or rng.random() < 0.5:
                    ctx.close(name, ens.median(), np.asarray(ens.ppf(0.5)), rtol=1e-9, atol=xtol, msg="%s: median and ppf(0.5)" % lab)
                    ctx.true("shape", np.shape(ens.median()) == (case.npdf, 1), "%s: shape of median %s" % (lab, np.shape(ens.median())))
            elif name == "interval":
                if slow:
                    continue
                a = float(rng.uniform(0.1, 0.95))
                low, high = ens.interval(a)
                ctx.close(name, low, ens.ppf((1 - a) / 2), rtol=1e-9, atol=xtol, msg="%s: lower end of interval(%r)" % (lab, a))
                ctx.close(name, high, ens.ppf((1 + a) / 2), rtol=1e-9, atol=xtol, msg="%s: upper end of interval(%r)" % (lab, a))
            elif name == "integrate":
                a, b = sorted(case.points(rng, 2))
                close = float(a) + w * 10.0 ** float(rng.uniform(-9, -3))
                for lims in ((float(a), float(b)), (float(a), close), (case.points(rng, case.npdf).reshape(-1, 1), case.points(rng, case.npdf).reshape(-1, 1))):
                    got = np.asarray(ens.integrate(lims), float)
                    want = np.asarray(ens.cdf(lims[1])) - np.asarray(ens.cdf(lims[0]))
                    ctx.close(name, got, want, rtol=0, atol=1e-12, msg="%s: integrate and cdf differences" % lab, lims=lims)
            elif name == "frozen":
                ctx.close(name, ens.frozen.pdf(x), get("pdf"), rtol=1e-12, atol=0, msg="%s: frozen.pdf and pdf" % lab)
                ctx.true("shape", int(ens.npdf) == case.npdf, "%s: npdf" % lab)
            elif case.kind in FAST or ("scipy" in case.extra and case.extra["scipy"] not in ("t",)):
                if name == "std":
                    ctx.close(name, ens.std(), np.sqrt(np.asarray(ens.var())), rtol=1e-9, atol=0, msg="%s: std and sqrt(var)" % lab)
                elif name == "stats":
                    out = ens.stats(moments="mv")
                    scale = (abs(case.lo) + abs(case.hi)) ** 2
                    ctx.close(name, out[0], ens.mean(), rtol=1e-9, atol=1e-12, msg="%s: stats('mv')[0] and mean" % lab, shape=False)
                    ctx.close(name, out[1], ens.var(), rtol=1e-9, atol=1e-12 * scale, msg="%s: stats('mv')[1] and var" % lab, shape=False)
                elif name == "mean":
                    ctx.true("shape", np.shape(ens.mean()) == (case.npdf, 1), "%s: shape of mean %s" % (lab, np.shape(ens.mean())))
            else:
                continue
            ctx.seen(lab, name, np.ndim(x), case.npdf)
        if "scipy" not in case.extra and not slow:
            logs(ctx, case, ens)


def logs(ctx, case, ens):
    """The logs themselves, down to where there is nothing"""
    rng = ctx.rng
    x = case.points(rng, 6)
    far, side = case.far_points(rng, 3)
    for name, base in (("logpdf", "pdf"), ("logcdf", "cdf"), ("logsf", "sf")):
        vals = np.asarray(getattr(ens, base)(x), float)
        got = np.asarray(getattr(ens, name)(x), float)
        # what rounding does to a small value does more to its log
        noise = 1e-13 * (np.max(np.abs(vals)) if base == "pdf" else 1.0)
        ok = vals > 1e3 * noise
        want = np.log(np.where(ok, vals, 1.0))
        tol = 1e-9 + 10 * noise / np.where(ok, vals, 1.0)
        ctx.true("logs", np.all((np.abs(got - want) <= tol * (1 + np.abs(want))) | ~ok), "%s: %s and the log of %s" % (case.label, name, base), x=x, got=got[:2], want=want[:2])
        none = far if base == "pdf" else far[side < 0] if base == "cdf" else far[side > 0]
        if none.size:
            got = np.asarray(getattr(ens, name)(none), float)
            ctx.true("logs", np.all(got < (-500 if base == "pdf" and case.kind != "mixmod" else -25)), "%s: %s is %s where %s is 0" % (case.label, name, got[0], base), x=none)


def histogramize(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    lab, w = case.label, case.width()
    for _ in range(2):
        nb = int(rng.choice([1, 2, case.npdf, case.npdf + 1, 12]))
        bins = np.sort(np.unique(case.points(rng, nb + 5)))[: nb + 1]
        if len(bins) < 2:
            continue
        given = bins.copy()
        out_bins, vals = ens.histogramize(bins)
        ctx.equal("bins", out_bins, given, "%s: histogramize returns other bins" % lab)
        # the differences, one edge at a time
        cdf = np.stack([np.asarray(ens.cdf(float(b)), float)[:, 0] for b in given], axis=1)
        ctx.close("bins", vals, np.diff(cdf, axis=1), rtol=0, atol=1e-9, msg="%s: histogramize and cdf differences" % lab)
        h2 = ens.frozen.histogramize(given)
        ctx.close("frozen", h2[1], vals, rtol=0, atol=1e-12, msg="%s: frozen.histogramize" % lab)
        ctx.seen(lab, "histogramize", case.npdf, len(bins))
    del w


WORKLOADS = [("identities", identities), ("histogramize", histogramize)]
