"""C06: ensembles are normalised, and independent of the scale of their input."""
import numpy as np

import qp
from gens import Case, gen_hist, gen_interp, gen_irr, gen_mixmod, gen_packed
from lib import close_vals, gauss_nodes

KEY = {"hist": "pdfs", "interp": "yvals", "interp_irregular": "yvals", "mixmod": "weights", "spline_xy": "yvals"}


class NoRef:
    def subset(self, rows):
        return self


def gen_spline_xy(rng, npdf=None):
    """x and y values of splines, with a common or an own grid for each row"""
    npdf = npdf or int(rng.choice([1, 2, 3, 5]))
    n = int(rng.choice([6, 8, 11]))
    lo, w = float(rng.uniform(-2, 2)), float(rng.choice([0.5, 1.0, 3.0]))
    base = np.linspace(lo, lo + w, n)
    xs = np.tile(base, (npdf, 1))
    own = rng.random() < 0.5
    if own:
        xs = lo + w * rng.uniform(0, 0.3, size=(npdf, 1)) + (base - lo) * rng.uniform(0.4, 1.0, size=(npdf, 1))
    cen = rng.uniform(0.3, 0.7, size=(npdf, 1))
    u = (xs - xs[:, :1]) / (xs[:, -1:] - xs[:, :1])
    ys = 0.2 + np.exp(-0.5 * ((u - cen) / 0.3) ** 2) * rng.uniform(0.5, 2.0, size=(npdf, 1))
    case = Case("spline_xy", "own" if own else "shared", qp.spline_from_xy, {}, dict(xvals=xs, yvals=ys), NoRef(), xs.min(), xs.max())
    return case


def build(case, values):
    """Build an ensemble from other values"""
    data = case.data()
    data[KEY[case.kind]] = values
    if case.kind == "spline_xy":
        return qp.Ensemble(qp.spline_from_xy, data=data)
    return qp.Ensemble(case.gen, data=data)


def areas(case, ens):
    """The integral of the pdf of each row"""
    out = []
    for i in range(case.npdf):
        if case.kind == "mixmod":
            span = case.ref.span(i)
            lo, hi = span[0] - 0.6 * (span[1] - span[0]), span[1] + 0.6 * (span[1] - span[0])
            edges = np.unique(np.concatenate([np.linspace(lo, hi, 400)] + [np.linspace(m - 9 * s, m + 9 * s, 60) for m, s in zip(case.ref.m[i], case.ref.s[i])]))
        elif case.kind == "spline_xy":
            edges = case.obj["xvals"][i]
        elif case.kind == "interp_irregular":
            edges = case.ref.xs[i]
        else:
            edges = case.knots
        nodes, weights = gauss_nodes(edges, order=5)
        pdf = np.asarray(ens.pdf(nodes.ravel()), float)[i].reshape(nodes.shape)
        out.append(np.sum(pdf * weights))
    return np.array(out)


GEN = [gen_hist, gen_interp, gen_irr, gen_mixmod, gen_spline_xy]


def scale(ctx):
    rng = ctx.rng
    case = GEN[ctx.index % 5](rng)
    key = KEY[case.kind]
    spline = case.kind == "spline_xy"
    vals = case.obj[key]
    dtype = "f8"
    if rng.random() < 0.3 and not spline:
        # whole numbers, and single precision, are values as well
        dtype = str(rng.choice(["i8", "i4", "f4"]))
        vals = np.round(vals / vals.max(axis=1)[:, None] * 1000)
        vals[:, 0] = np.maximum(vals[:, 0], 1)
        vals[:, -1] = np.maximum(vals[:, -1], 1)
        case.obj[key] = vals
    lab = case.label
    ctx.note("case", lab, "npdf", case.npdf, "dtype", dtype)
    ens = build(case, vals.astype(dtype))
    tol = 1e-3 if spline else (1e-5 if dtype == "f4" else 1e-8)
    rtol = 1e-2 if spline else (1e-4 if dtype == "f4" else 1e-8)
    rtol_n = 1e-6 if spline else rtol
    got = areas(case, ens)
    ctx.close("area", got, np.ones(case.npdf), rtol=0, atol=1e-5 if spline else max(tol, 1e-7), msg="%s (%s): integral of the pdf" % (lab, dtype))
    expo = 3 if spline else 6
    facs = 10.0 ** rng.uniform(-expo, expo, size=case.npdf)
    if rng.random() < 0.3:
        facs[:] = facs[0]
    some = rng.random(case.npdf) < 0.5
    if rng.random() < 0.4:
        facs = np.where(some, facs, 1.0)
    if spline:
        facs = np.maximum(facs, 1e-3)
    other = build(case, case.obj[key] * facs[:, None])
    x = case.points(rng, 9, on_knots=False)
    if spline:
        x = rng.uniform(case.obj["xvals"][:, :1], case.obj["xvals"][:, -1:], size=(case.npdf, 6))
    pdf = np.asarray(ens.pdf(x), float)
    atol = np.max(np.abs(pdf)) * (1e-3 if spline else 1e-9 if dtype != "f4" else 1e-5) + 1e-12 / case.width()
    ctx.close("scaled", other.pdf(x), pdf, rtol=rtol, atol=atol, msg="%s: pdf of the scaled input, factors %s" % (lab, facs))
    cdf = np.asarray(ens.cdf(x), float)
    ctx.close("scaled", other.cdf(x), cdf, rtol=0, atol=5e-3 if spline else max(1e-9, tol), msg="%s: cdf of the scaled input" % lab)
    if not spline:
        q = rng.uniform(0.05, 0.95, size=4)
        p1, p2 = np.asarray(ens.ppf(q), float), np.asarray(other.ppf(q), float)
        if case.kind != "mixmod":
            back = np.asarray(ens.cdf(p2), float)
            ctx.close("scaled", back, np.asarray(ens.cdf(p1), float), rtol=0, atol=max(1e-8, 10 * tol), msg="%s: ppf of the scaled input" % lab)
        else:
            ctx.close("scaled", p2, p1, rtol=1e-6 if dtype != "f4" else 1e-4, atol=1e-7 * case.width(), msg="%s: ppf of the scaled input" % lab)
    # the others do not matter
    rows = rng.permutation(case.npdf)[: int(rng.integers(1, case.npdf + 1))]
    data = case.data(rows)
    data[key] = data[key].astype(dtype)
    part = qp.Ensemble(qp.spline_from_xy if spline else case.gen, data=data)
    xr = x[rows] if np.ndim(x) == 2 else x
    pdf_rows = pdf[rows]
    close_vals(ctx, "independent", part.pdf(xr), pdf_rows, "%s: pdf of rows %s built alone" % (lab, rows), rtol=max(rtol_n, 1e-8), width=case.width() * 1e-3)
    if not spline:
        ctx.close("independent", part.cdf(xr), cdf[rows], rtol=0, atol=max(1e-9, tol), msg="%s: cdf of rows built alone" % lab)
    else:
        inner = np.asarray(part.cdf(xr), float) - np.asarray(part.cdf(case.obj["xvals"][rows][:, :1]), float)
        ctx.close("independent", inner, cdf[rows] - np.asarray(ens.cdf(case.obj["xvals"][:, :1]), float)[rows], rtol=0, atol=1e-5, msg="%s: cdf of rows built alone" % lab)
    # neither does a change of another row
    if case.npdf > 1:
        k = int(rng.integers(case.npdf))
        changed = case.obj[key].copy()
        changed[k] = rng.permutation(changed[k]) * 7.0
        rest = np.arange(case.npdf) != k
        third = build(case, changed)
        close_vals(ctx, "independent", np.asarray(third.pdf(x))[rest], pdf[rest], "%s: pdf after another row was changed" % lab, rtol=max(rtol_n, 1e-8 if dtype != "f4" else 1e-4), width=case.width() * (1e-3 if dtype != "f4" else 1e-7))
    ctx.seen(lab, dtype, case.npdf, "10^%i" % np.round(np.log10(facs.max())))


def reject(ctx):
    rng = ctx.rng
    case = gen_mixmod(rng, ncomp=int(rng.integers(1, 5)))
    w = case.obj["weights"].copy()
    i, j = int(rng.integers(w.shape[0])), int(rng.integers(w.shape[1]))
    w[i, j] = -(10.0 ** rng.uniform(-9, 2))
    ctx.raises("negative", ValueError, lambda: build(case, w), "mixmod with weight %r of row %i" % (w[i, j], i))
    build(case, np.abs(w))
    # rejected values must not get in by an update either
    ens = case.make()
    data = dict(means=case.obj["means"], stds=case.obj["stds"], weights=w)
    ctx.raises("negative", ValueError, lambda: ens.update(data), "update of mixmod with a negative weight")
    ctx.seen("reject", case.npdf, w.shape[1])


def near(ctx):
    """Input that is almost normalised is normalised as well"""
    rng = ctx.rng
    case = GEN[ctx.index % 4](rng)
    key = KEY[case.kind]
    good = np.asarray(case.ref.w if case.kind == "mixmod" else case.ref.vals if case.kind == "hist" else case.ref.ys, float)
    off = rng.choice([-1.0, 1.0], size=case.npdf) * 10.0 ** rng.uniform(-6, -0.7, size=case.npdf)
    off[rng.random(case.npdf) < 0.2] = 0.0
    ens = build(case, good * (1.0 + off)[:, None])
    lab = "%s, integrals off by %s" % (case.label, off)
    ctx.note(lab)
    ctx.close("near", areas(case, ens), np.ones(case.npdf), rtol=0, atol=1e-7, msg="%s: integral of the pdf" % lab)
    x = case.points(rng, 7)
    ctx.close("near", ens.pdf(x), case.ref_pdf(x), rtol=1e-7, atol=1e-9 / case.width(), msg="%s: pdf" % lab)
    ctx.close("near", ens.cdf(x), case.make().cdf(x), rtol=0, atol=1e-7, msg="%s: cdf" % lab)
    ctx.close("near", ens.cdf(case.hi + 20 * case.width()), np.ones((case.npdf, 1)), rtol=0, atol=1e-7, msg="%s: cdf at the end" % lab)
    q = rng.uniform(0.05, 0.95, size=3)
    want = np.asarray(case.make().ppf(q), float)
    if case.kind != "mixmod":
        ctx.close("near", case_cdf(case, ens.ppf(q)), case_cdf(case, want), rtol=0, atol=1e-6, msg="%s: ppf" % lab)
    ctx.seen("near", case.label, "10^%i" % np.round(np.log10(np.abs(off).max() + 1e-9)))


def case_cdf(case, pts):
    return np.array([case.ref.cdf(i, row) for i, row in enumerate(np.asarray(pts, float))])


def unchecked(ctx):
    """Values that are known to be normalised are the same with check_input=False"""
    rng = ctx.rng
    case = [gen_hist, gen_interp, gen_irr, gen_packed][ctx.index % 4](rng)
    ens = case.make()
    data = {k: np.squeeze(v) if v is not None else v for k, v in ens.metadata().items() if k not in ("pdf_name", "pdf_version")}
    data.update({k: np.array(v) for k, v in ens.objdata().items()})
    if case.kind == "packed_interp":
        # their maxima are those of the values before normalisation
        raw = np.asarray(case.obj["ymax"], float)
        norm = np.asarray(ens.dist.yvals, float).max(axis=-1, keepdims=True)
        top = np.asarray(case.obj["ypacked"]).max(axis=-1, keepdims=True)
        if np.any(top != 255):
            return
        data["ymax"] = norm.reshape(raw.shape)
        data["packing_type"] = int(data["packing_type"])
        data["log_floor"] = float(data["log_floor"])
    lab = "%s with check_input=False" % case.label
    w = case.width()
    x = case.points(rng, 7)
    q = rng.uniform(0.02, 0.98, size=4)
    grid = np.sort(case.points(rng, 5))
    opers = dict(
        pdf=lambda e: e.pdf(x), cdf=lambda e: e.cdf(x), ppf=lambda e: e.ppf(q), sf=lambda e: e.sf(x), isf=lambda e: e.isf(q),
        median=lambda e: e.median(), rvs=lambda e: e.rvs(size=3, random_state=4), gridded=lambda e: e.gridded(grid)[1],
        histogramize=lambda e: e.histogramize(np.linspace(case.lo, case.hi, 5))[1],
        moment=lambda e: e.moment(1) if case.kind != "interp_irregular" else e.cdf(x), interval=lambda e: np.concatenate(e.interval(0.6)),
        integrate=lambda e: e.integrate((case.lo + 0.2 * w, case.hi - 0.3 * w)),
    )
    # whatever is asked for first
    names = [str(n) for n in rng.permutation(sorted(opers))]
    other = qp.Ensemble(case.gen, data={**data, "check_input": False})
    size = dict(pdf=1.0 / w, gridded=1.0 / w, ppf=w, isf=w, rvs=w, median=w, interval=w, moment=w)
    for name in names:
        want = np.asarray(opers[name](ens), float)
        got = np.asarray(opers[name](other), float)
        if name in ("ppf", "isf", "rvs", "median", "interval"):
            # where the cdf is flat, rounding decides
            u = dict(ppf=q, isf=1 - q, median=[0.5], interval=None, rvs=None).get(name)
            if u is None:
                flat = np.abs(got - want) > 1e-7 * w
                alike = np.abs(case_cdf(case, got) - case_cdf(case, want)) < 1e-7 if name == "rvs" else np.zeros(got.shape, bool)
                if name == "interval":
                    two = [(case_cdf(case, g), case_cdf(case, h)) for g, h in zip(np.split(got, 2), np.split(want, 2))]
                    alike = np.concatenate([np.abs(g - h) < 1e-7 for g, h in two])
                ctx.true("unchecked", not np.any(flat & ~alike), "%s: %s" % (lab, name), got=got, want=want)
            else:
                ctx.close("unchecked", case_cdf(case, got), case_cdf(case, want), rtol=0, atol=1e-7, msg="%s: %s" % (lab, name))
            continue
        ctx.close("unchecked", got, want, rtol=1e-9, atol=1e-9 * size.get(name, 1.0), msg="%s: %s, in the order %s" % (lab, name, names))
    part = other[case.npdf - 1]
    ctx.close("unchecked", part.pdf(x), np.asarray(ens.pdf(x))[-1:], rtol=1e-9, atol=1e-9 / w, msg="%s: pdf of the last one" % lab)
    ctx.seen("unchecked", case.label, names[0])


WORKLOADS = [("scale", scale), ("near", near), ("reject", reject), ("unchecked", unchecked)]
