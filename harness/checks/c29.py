"""C29: plots show the PDFs that were asked for, where they were asked for, and change nothing else."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import qp  # noqa: E402
from common import same  # noqa: E402
from gens import gen_ancil, gen_case  # noqa: E402
from lib import eval_tol  # noqa: E402
from monitors import fingerprint  # noqa: E402
from qp import plotting  # noqa: E402

COLORS = ["r", "k", "C2", "blueviolet", "#123456"]


def artists(axes):
    """What is drawn on some axes"""
    return dict(
        lines=[(l, np.array(l.get_xdata()), np.array(l.get_ydata())) for l in axes.lines],
        marks=[(c, np.array(c.get_offsets())) for c in axes.collections],
        bars=[(p, p.get_x(), p.get_width(), p.get_height()) for p in axes.patches],
    )


def unchanged(ctx, axes, before, msg):
    """Everything that was drawn before is still there, as it was; returns what is new"""
    now = artists(axes)
    for part in before:
        old = before[part]
        good = len(now[part]) >= len(old)
        for was, is_ in zip(old, now[part]):
            good = good and was[0] is is_[0] and all(same(a, b) for a, b in zip(was[1:], is_[1:]))
        ctx.true("others", good, "%s: %s drawn before have changed" % (msg, part))
    return {part: now[part][len(before[part]):] for part in before}


def pick(rng, npdf):
    """A key, and the rows it selects"""
    style = int(rng.integers(0, 7))
    if style == 0:
        return None, [0], "default"
    if style == 1:
        i = int(rng.integers(-npdf, npdf))
        return i, [i % npdf], "int"
    if style == 2:
        i = np.int64(rng.integers(0, npdf))
        return i, [int(i)], "np.int"
    if style == 3:
        i = int(rng.integers(0, npdf))
        return slice(i, i + 1), [i], "slice of one"
    if style == 4:
        rows = np.arange(npdf)[:: int(rng.integers(1, 3))]
        return slice(None, None, int(rows[1] - rows[0]) if len(rows) > 1 else npdf), list(rows), "slice"
    if style == 5:
        rows = rng.permutation(npdf)[: int(rng.integers(1, npdf + 1))]
        return rows, list(rows), "rows"
    lo = int(rng.integers(0, npdf))
    hi = int(rng.integers(lo + 1, npdf + 1))
    return slice(lo, hi), list(range(lo, hi)), "slice"


def open_axes(rng, case):
    """The axes or limits that are given, and what they say about the x axis"""
    w = case.width()
    lo, hi = np.sort(rng.uniform(case.lo - 0.2 * w, case.hi + 0.2 * w, size=2))
    if hi - lo < 0.05 * w:
        lo, hi = case.lo, case.hi
    style = int(rng.integers(0, 4))
    others = []
    if style <= 1:
        form = [(lo, hi), [lo, hi], np.array([lo, hi])][int(rng.integers(0, 3))]
        if rng.random() < 0.5:
            # a figure that is current, and must stay as it is
            fig = plt.figure()
            other = fig.add_subplot(111)
            other.plot([0, 1], [2, 3])
            others.append((other, artists(other)))
        return dict(xlim=form), None, (lo, hi), others
    fig, axs = plt.subplots(1, 2)
    axes, other = (axs[0], axs[1]) if rng.random() < 0.5 else (axs[1], axs[0])
    other.plot([0, 1], [2, 3])
    if style == 2:
        axes.set_xlim(lo, hi)
    else:
        axes.plot([lo, hi], [0.1, 0.2], "k:")
        axes.scatter([lo], [0.0])
        lo, hi = axes.get_xlim()
    if rng.random() < 0.5:
        plt.figure()
    others.append((other, artists(other)))
    return dict(axes=axes), axes, (lo, hi), others


def judge_curve(ctx, case, line, row, want_x, msg):
    x, y = np.ravel(line[1]), np.ravel(line[2])
    w = case.width()
    if not ctx.close("points", x, want_x, rtol=1e-12, atol=1e-12 * w, msg="%s: points of the curve" % msg):
        return
    want = np.ravel(case.single(row).pdf(x))
    if case.knots is not None:
        far = ~case._near(x)
        y, want = y[far], want[far]
    ctx.close("curve", y, want, rtol=1e-7, atol=eval_tol(want, w), msg="%s: curve of row %i" % (msg, row))
    ctx.ev("curves")


def native_points(case, row):
    """Where the native curve of a representation is drawn"""
    if case.kind in ("interp", "packed_interp", "sparse"):
        return np.asarray(case.meta["xvals"], float)
    if case.kind == "interp_irregular":
        return np.asarray(case.obj["xvals"][row], float)
    if case.kind == "spline":
        return np.asarray(case.obj["splx"][row], float) if "splx" in case.obj else None
    return None


def draw(ctx):
    """plot() and plot_native() of any ensemble"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make(ancil=gen_ancil(rng, case.npdf) if rng.random() < 0.3 else None)
    native = rng.random() < 0.5
    func = "plot_native" if native else "plot"
    key, rows, style = pick(rng, case.npdf)
    where, axes, lim, others = open_axes(rng, case)
    kwds = {}
    if rng.random() < 0.4:
        kwds["color"] = str(rng.choice(COLORS))
    if rng.random() < 0.4:
        kwds["label"] = "PDF %i" % rows[0]
    npts = 101
    if not (native and native_points(case, rows[0]) is not None) and not (native and case.kind == "hist"):
        if rng.random() < 0.4:
            npts = int(rng.integers(2, 60)) if rng.random() < 0.8 else int(rng.choice([300, 1500, 3000]))
            kwds["npts" if (native and case.kind == "quant") or rng.random() < 0.7 else "npoints"] = npts
    labels = {}
    if axes is None and rng.random() < 0.3:
        labels = dict(xlabel="z", ylabel="density")
    how = int(rng.integers(0, 4))
    lab = "%s %s(%s) %s" % (case.label, func, style, sorted(list(where) + list(kwds) + list(labels)))
    ctx.note(lab, key)
    before = fingerprint(ens)
    rc = dict(matplotlib.rcParams)
    base = artists(axes) if axes is not None else dict(lines=[], marks=[], bars=[])
    args = dict(where, **kwds, **labels)
    if key is None:
        got = getattr(ens, func)(**args) if how else getattr(plotting, func)(ens, **args)
    elif how <= 1:
        got = getattr(ens, func)(key, **args)
    elif how == 2:
        got = getattr(plotting, func)(ens[key], key=slice(None), **args)
    else:
        got = getattr(ens.gen_class, func)(ens[key], **args)
    if isinstance(got, tuple):
        fig, got = got
        ctx.true("figure", fig is got.figure, "%s: the figure is not that of the axes" % lab)
    if axes is not None:
        ctx.true("axes", got is axes, "%s: drawn on other axes than the ones given" % lab)
    new = unchanged(ctx, got, base, lab)
    for other, was in others:
        add = unchanged(ctx, other, was, lab + " other axes")
        ctx.true("others", not any(add.values()), "%s: also drawn on other axes" % lab)
    if "xlim" in where:
        ctx.close("xlim", got.get_xlim(), lim, rtol=1e-12, atol=1e-12 * case.width(), msg="%s: limits of the axes" % lab)
        if labels:
            ctx.equal("labels", [got.get_xlabel(), got.get_ylabel()], list(labels.values()), lab)
    ctx.equal("ensemble", fingerprint(ens), before, "%s: the ensemble" % lab)
    ctx.true("rc", dict(matplotlib.rcParams) == rc, "%s: the settings of matplotlib have changed" % lab)

    if native and case.kind == "hist":
        bins, vals = np.asarray(case.meta["bins"], float), case.ref.vals
        nbin = len(bins) - 1
        if ctx.true("bars", len(new["bars"]) == nbin * len(rows), "%s: %i bars for %i rows of %i bins" % (lab, len(new["bars"]), len(rows), nbin)):
            bars = np.array([b[1:] for b in new["bars"]]).reshape(len(rows), nbin, 3)
            for n, row in enumerate(rows):
                scale = np.abs(bins).max()
                ctx.close("bars", bars[n, :, 0], bins[:-1], rtol=1e-9, atol=1e-9 * scale, msg="%s: bins of row %i" % (lab, row))
                ctx.close("bars", bars[n, :, 1], np.diff(bins), rtol=1e-7, atol=1e-9 * scale, msg="%s: bins of row %i" % (lab, row))
                ctx.close("bars", bars[n, :, 2], vals[row], rtol=1e-6, atol=1e-9 * vals[row].max(), msg="%s: bars of row %i" % (lab, row))
                ctx.ev("histograms")
        if ctx.true("marks", len(new["marks"]) >= 1, "%s: no marks for the bin edges" % lab):
            ctx.close("marks", np.asarray(new["marks"][0][1])[:, 0], bins, rtol=1e-9, atol=1e-9 * np.abs(bins).max(), msg="%s: marks" % lab)
    else:
        if not ctx.true("count", len(new["lines"]) == len(rows), "%s: %i curves for %i PDFs" % (lab, len(new["lines"]), len(rows))):
            return
        for line, row in zip(new["lines"], rows):
            want_x = native_points(case, row) if native else None
            if want_x is None and native and case.kind == "spline":
                want_x = np.ravel(line[1])
            if want_x is None:
                want_x = np.linspace(lim[0], lim[1], npts)
            judge_curve(ctx, case, line, row, want_x, lab)
            if "color" in kwds:
                ctx.true("kwds", line[0].get_color() == kwds["color"], "%s: color %s" % (lab, line[0].get_color()))
            if "label" in kwds:
                ctx.true("kwds", str(line[0].get_label()).startswith(kwds["label"]), "%s: label %s" % (lab, line[0].get_label()))
        if native and case.kind == "quant" and ctx.true("marks", len(new["marks"]) == 1, "%s: no marks" % lab):
            want = np.ravel(case.ref.l[rows])
            marks = np.asarray(new["marks"][0][1])
            ctx.close("marks", marks[:, 0], want, rtol=1e-6, atol=1e-6 * case.width(), msg="%s: locations of the quantiles" % lab)
            ctx.true("marks", not np.any(marks[:, 1]), "%s: the marks are not on the axis" % lab)
    ctx.seen(case.label, func, style, "axes" if axes is not None else "xlim", len(rows) > 1)
    plt.close("all")


def pieces(ctx):
    """The functions that draw samples, quantiles, histograms and curves on axes"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    row = int(rng.integers(case.npdf))
    one = ens[row]
    fig, axs = plt.subplots(1, 2)
    k = int(rng.integers(0, 2))
    axes, other = axs[k], axs[1 - k]
    w = case.width()
    lim = (case.lo - 0.1 * w, case.hi + 0.1 * w)
    auto = rng.random() < 0.3
    if not auto:
        axes.set_xlim(*lim)
    if rng.random() < 0.3:
        plt.figure()
    was = artists(other)
    kwds = {}
    if rng.random() < 0.4:
        kwds["color"] = str(rng.choice(COLORS))
    what = ["samples", "quantiles", "histogram", "curve", "default"][int(rng.integers(0, 5))]
    lab = "%s %s" % (case.label, what)
    ctx.note(lab, row, kwds)
    if what == "samples":
        # (what the samples are does not matter here)
        samples = rng.uniform(case.lo, case.hi, size=int(rng.integers(1, 30)))
        npts = 101
        if rng.random() < 0.4:
            npts = int(rng.integers(2, 50)) if rng.random() < 0.8 else int(rng.choice([300, 1500]))
            kwds["npoints"] = npts
        keep = samples.copy()
        got = plotting.plot_pdf_samples_on_axes(axes, one, samples, **kwds)
        ctx.equal("ensemble", samples, keep, lab)
        new = artists(axes)
        ok = ctx.true("count", len(new["lines"]) == 1 and len(new["marks"]) == 1, "%s: %i curves, %i marks" % (lab, len(new["lines"]), len(new["marks"])))
        if ok:
            ctx.close("marks", np.asarray(new["marks"][0][1]), np.stack([samples, 0 * samples], 1), rtol=1e-12, atol=1e-12 * w, msg=lab)
            x = np.ravel(new["lines"][0][1])
            ends = (x[0], x[-1]) if auto else lim
            if auto:
                ctx.true("points", x[0] <= samples.min() and x[-1] >= samples.max(), "%s: curve from %s to %s" % (lab, x[0], x[-1]))
            judge_curve(ctx, case, new["lines"][0], row, np.linspace(ends[0], ends[1], npts), lab)
    elif what == "quantiles":
        quants = np.sort(rng.uniform(size=5))
        locs = np.sort(rng.uniform(case.lo, case.hi, size=5))
        x = np.linspace(lim[0], lim[1], 17)
        y = np.squeeze(one.pdf(x))
        got = plotting.plot_pdf_quantiles_on_axes(axes, x, y, quantiles=(quants, locs), **kwds)
        new = artists(axes)
        if ctx.true("count", len(new["lines"]) == 1 and len(new["marks"]) == 1, "%s: curves or marks are missing" % lab):
            ctx.close("marks", np.asarray(new["marks"][0][1]), np.stack([locs, 0 * locs], 1), rtol=1e-12, atol=1e-12 * w, msg=lab)
            judge_curve(ctx, case, new["lines"][0], row, x, lab)
    elif what == "histogram":
        bins = np.linspace(lim[0], lim[1], int(rng.integers(1, 12)) + 1)
        vals = one.histogramize(bins)[1]
        got = plotting.plot_pdf_histogram_on_axes(axes, (bins, vals), **kwds)
        new = artists(axes)
        if ctx.true("bars", len(new["bars"]) == len(bins) - 1, "%s: %i bars, %i bins" % (lab, len(new["bars"]), len(bins) - 1)):
            want = np.diff(np.ravel(case.single(row).cdf(bins)))
            bars = np.array([b[1:] for b in new["bars"]])
            ctx.close("bars", bars[:, 0], bins[:-1], rtol=1e-9, atol=1e-9 * w, msg=lab)
            ctx.close("bars", bars[:, 1], np.diff(bins), rtol=1e-9, atol=1e-9 * w, msg=lab)
            ctx.close("bars", bars[:, 2], want, rtol=1e-6, atol=1e-7, msg=lab)
    elif what == "curve":
        x = np.sort(case.points(rng, int(rng.integers(2, 20))))
        if rng.random() < 0.3:
            x = x.reshape(1, -1)
        got = plotting.plot_pdf_on_axes(axes, one, x, **kwds)
        new = artists(axes)
        if ctx.true("count", len(new["lines"]) == 1, "%s: %i curves" % (lab, len(new["lines"]))):
            judge_curve(ctx, case, new["lines"][0], row, np.ravel(x), lab)
    else:
        # the frozen distribution itself
        if auto:
            axes.set_xlim(*lim)
        fig2, got = plotting.plot(one.frozen, axes=axes, **kwds)
        new = artists(axes)
        ctx.true("figure", fig2 is fig, "%s: another figure" % lab)
        if ctx.true("count", len(new["lines"]) == 1, "%s: %i curves" % (lab, len(new["lines"]))):
            judge_curve(ctx, case, new["lines"][0], row, np.linspace(lim[0], lim[1], 101), lab)
    ctx.true("axes", got is axes, "%s: other axes were returned" % lab)
    add = unchanged(ctx, other, was, lab + " other axes")
    ctx.true("others", not any(add.values()), "%s: also drawn on other axes" % lab)
    ctx.seen(case.label, what, auto)
    plt.close("all")


def rejects(ctx):
    """Neither or both of axes and xlim"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    fig, axes = plt.subplots()
    axes.plot([0, 1], [0, 1])
    was = artists(axes)
    nfig = len(plt.get_fignums())
    for func in ("plot", "plot_native"):
        ctx.raises("reject", ValueError, lambda: getattr(ens, func)(0), "%s %s without axes and xlim" % (case.label, func))
        ctx.raises("reject", ValueError, lambda: getattr(ens, func)(0, axes=axes, xlim=(0, 1)), "%s %s with axes and xlim" % (case.label, func))
    new = unchanged(ctx, axes, was, case.label)
    ctx.true("reject", not any(new.values()), "%s: a rejected call has drawn something" % case.label)
    ctx.true("reject", len(plt.get_fignums()) == nfig, "%s: a rejected call has made a figure" % case.label)
    ctx.seen(case.label, "rejects")
    plt.close("all")


WORKLOADS = [("draw", draw), ("pieces", pieces), ("rejects", rejects)]
