"""C35: equal numbers give equal results, however the arrays that hold them are made.

Every array given to qp (constructor data, points, quantiles, grids, bins, limits, ancillary
data, true values) is given in another form: another layout in memory, byte order, read-only,
masked (with nothing masked), overlapping, of single precision or integers where the
numbers allow it, or as lists where any sequence of points is accepted.
"""
import os

import numpy as np

import qp
from common import deep
from gens import GENS, gen_ancil, too_slow
from lib import close_vals

KINDS = list(GENS)


def single(val):
    """Numbers that are the same in single precision"""
    val = np.asarray(val)
    return val.astype("f4").astype(val.dtype) if val.dtype.kind == "f" else val


def readonly(val):
    val = np.array(val)
    val.setflags(write=False)
    return val


def window(val):
    """A part of a larger array"""
    val = np.asarray(val)
    if val.ndim == 0:
        return val
    big = np.full(tuple(s + 3 for s in val.shape), 77, dtype=val.dtype)
    part = big[tuple(slice(1, 1 + s) for s in val.shape)]
    part[...] = val
    return part


class Sub(np.ndarray):
    """A class of arrays of the user"""


FORMS = dict(
    fortran=np.asfortranarray,
    strided=lambda a: np.repeat(a, 2, axis=-1)[..., ::2] if np.ndim(a) else a,
    reversed=lambda a: np.array(a[..., ::-1])[..., ::-1] if np.ndim(a) else a,
    readonly=readonly,
    swapped=lambda a: np.asarray(a).astype(np.asarray(a).dtype.newbyteorder(">")),
    window=window,
    masked=np.ma.array,
    sub=lambda a: np.array(a).view(Sub),
    transposed=lambda a: np.array(np.asarray(a).T).T,
)
SINGLE = dict(f4=lambda a: np.asarray(a).astype("f4") if np.asarray(a).dtype.kind == "f" else a)
LISTS = dict(
    list=lambda a: np.asarray(a).tolist(),
    tuple=lambda a: tuple(map(tuple, np.asarray(a))) if np.ndim(a) == 2 else tuple(a) if np.ndim(a) == 1 else a,
)


def pick(rng, lists=False, single_too=True):
    """A form, and its name"""
    forms = dict(FORMS)
    if single_too:
        forms.update(SINGLE)
    if lists:
        forms.update(LISTS)
    name = str(rng.choice(sorted(forms)))
    return name, forms[name]


def case_of(ctx):
    """A case whose numbers are the same in single precision, and its data"""
    rng = ctx.rng
    case = GENS[KINDS[ctx.index % len(KINDS)]](rng)
    meta = {k: (single(v) if isinstance(v, np.ndarray) else v) for k, v in deep(case.meta).items()}
    obj = {k: single(v) for k, v in deep(case.obj).items()}
    return case, meta, obj


def build(case, meta, obj, ancil=None):
    return qp.Ensemble(case.gen, data={**deep(meta), **{k: np.array(v) for k, v in obj.items()}}, ancil=deep(ancil))


def tolerance(name):
    return dict(rtol=2e-5) if "f4" in name else dict(rtol=1e-9)


def alike(ctx, key, got, want, name, lab, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if scale is None:
        fin = np.abs(want[np.isfinite(want)]) if want.dtype.kind == "f" else np.array([])
        scale = fin.max() if fin.size else 1.0
    tol = tolerance(name)["rtol"]
    ctx.close(key, got, want, rtol=tol, atol=tol * scale + 1e-300, msg=lab)


def points(ctx):
    """Points and quantiles in another form"""
    rng = ctx.rng
    case, meta, obj = case_of(ctx)
    ens = build(case, meta, obj)
    shape = [(int(rng.choice([1, 2, 5, case.npdf])),), (case.npdf, 1), (case.npdf, 3)][int(rng.integers(3))]
    w = case.width()
    for func in rng.permutation(["pdf", "cdf", "sf", "logpdf", "logcdf", "ppf", "isf"])[:4]:
        func = str(func)
        if func in ("ppf", "isf"):
            if case.kind == "spline":
                continue
            x = single(rng.uniform(0.05, 0.95, size=shape))
        else:
            if too_slow(case, func, shape[-1]):
                continue
            x = single(case.points(rng, int(np.prod(shape))).reshape(shape))
            if rng.random() < 0.25:
                # integers
                x = np.round(x)
                if case._near(x.ravel()).any() if case.knots is not None else False:
                    continue
        name, form = pick(rng, lists=True)
        given = form(x)
        if np.all(x == np.round(x)) and func not in ("ppf", "isf") and rng.random() < 0.7:
            name, given = "i8", x.astype("i8")
            if rng.random() < 0.3:
                name, given = "ints", x.astype("i8").tolist()
        want = np.asarray(getattr(ens, func)(np.array(x)))
        got = getattr(ens, func)(given)
        lab = "%s: %s of points %s given as %s" % (case.label, func, shape, name)
        alike(ctx, "points", got, want, name, lab, scale=w if func in ("ppf", "isf") else None)
        ctx.seen("points", case.label, func, name, len(shape))
    # single numbers
    v = float(single(case.points(rng, 1))[0])
    want = np.asarray(ens.pdf(np.array([v])))
    for name, given in (("float", v), ("np.float64", np.float64(v)), ("np.float32", np.float32(v)), ("0-d", np.array(v)), ("list", [v])):
        alike(ctx, "scalar", ens.pdf(given), want, "f4" if "32" in name else name, "%s: pdf at one point given as %s" % (case.label, name))
    ctx.ev("forms", 9)


def data(ctx):
    """Constructor data in another form"""
    rng = ctx.rng
    case, meta, obj = case_of(ctx)
    x = single(np.sort(case.points(rng, 6)))
    q = single(rng.uniform(0.05, 0.95, size=3))
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None
    base = build(case, meta, obj, anc)
    names = []

    def formed(key, val):
        if not isinstance(val, np.ndarray):
            return val
        name, form = pick(rng, single_too=case.kind != "sparse")
        if case.kind == "sparse" and key == "dims":
            return val
        names.append("%s: %s" % (key, name))
        return form(np.array(val))

    given = {k: formed(k, v) for k, v in {**deep(meta), **deep(obj)}.items()}
    ganc = None if anc is None else {k: pick(rng, single_too=False)[1](np.array(v)) for k, v in anc.items()}
    ens = qp.Ensemble(case.gen, data=given, ancil=ganc)
    name = " ".join(names)
    lab = "%s built from %s" % (case.label, ", ".join(names))
    w = case.width()

    def judge(other, want, what):
        if not ctx.true("npdf", other.npdf == want.npdf, "%s, %s: %s PDFs" % (lab, what, other.npdf)):
            return
        alike(ctx, "pdf", other.pdf(x), want.pdf(x), name, "%s, %s: pdf" % (lab, what))
        alike(ctx, "cdf", other.cdf(x), want.cdf(x), name, "%s, %s: cdf" % (lab, what))
        if case.kind != "spline":
            alike(ctx, "ppf", other.ppf(q), want.ppf(q), name, "%s, %s: ppf" % (lab, what), scale=w)
        if want.ancil is not None and other.ancil is not None:
            for key, val in want.ancil.items():
                ctx.true("ancil", np.array_equal(np.asarray(other.ancil[key]).astype(val.dtype), val), "%s, %s: ancil %s" % (lab, what, key))

    judge(ens, base, "built")
    oper = str(rng.choice(["slice", "append", "file", "iterator", "update", "concatenate", "copy", "convert", "samples"]))
    if oper == "slice":
        rows = rng.permutation(case.npdf)[: int(rng.integers(1, case.npdf + 1))]
        judge(ens[rows], base[rows], "sliced")
    elif oper == "append":
        if case.kind == "quant" or "f4" not in name:
            two = build(case, meta, obj, anc)
            two.append(build(case, meta, obj, anc))
            ens.append(build(case, meta, obj, anc)) if "f4" not in name else ens.append(ens[:])
            judge(ens, two, "appended")
    elif oper == "concatenate":
        judge(qp.concatenate([ens, ens]), qp.concatenate([base, base]), "concatenated")
    elif oper in ("file", "iterator"):
        kinds = names + ["masked" if isinstance(v, np.ma.MaskedArray) else "" if np.asarray(v).dtype.isnative else "swapped" for v in (ganc or {}).values()]
        if "masked" in " ".join(kinds):
            # tables_io takes a masked array for a table
            return
        ext = "hdf5" if oper == "iterator" or "swapped" in " ".join(kinds) else str(rng.choice(["hdf5", "fits", "pq"]))
        path = os.path.join(ctx.scratch, "forms%i.%s" % (ctx.index, ext))
        if case.kind == "spline" and ext == "pq":
            return
        ens.write_to(path)
        if oper == "file":
            judge(qp.read(path), base, "read from " + ext)
        else:
            size = int(rng.integers(1, case.npdf + 1))
            for start, end, part in qp.iterator(path, size):
                judge(part, base[start:end], "rows %i to %i" % (start, end))
        for fname in os.listdir(ctx.scratch):
            if fname.startswith("forms%i" % ctx.index):
                os.remove(os.path.join(ctx.scratch, fname))
    elif oper == "update":
        other = build(case, meta, obj, None)
        other.pdf(x)
        other.update(given, ganc)
        judge(other, base, "updated")
        if case.kind != "quant":
            # the quantiles of the metadata may have been padded
            other.update_objdata({k: given[k] for k in obj})
            judge(other, build(case, meta, obj), "updated again")
    elif oper == "convert":
        if case.kind != "spline":
            grid = single(np.linspace(case.lo, case.hi, 9))
            gname, form = pick(rng, single_too=False)
            target, key = [("hist", "bins"), ("interp", "xvals"), ("interp_irregular", "xvals")][int(rng.integers(3))]
            got, want = qp.convert(ens, target, **{key: form(grid)}), qp.convert(base, target, **{key: np.array(grid)})
            mids = 0.5 * (grid[1:] + grid[:-1]) + 0.1 * np.diff(grid)
            alike(ctx, "convert", got.pdf(mids), want.pdf(mids), name, "%s, converted to %s with %s given as %s" % (lab, target, key, gname))
    elif oper == "samples":
        if case.kind != "spline":
            alike(ctx, "rvs", ens.rvs(size=4, random_state=5), base.rvs(size=4, random_state=5), name, lab + ": samples", scale=w)
    ctx.ev("arrays", len(names))
    for nam in names:
        ctx.seen("data", case.kind, nam, oper)


def arguments(ctx):
    """Grids, bins, limits and true values in another form"""
    from qp import metrics as M

    rng = ctx.rng
    case, meta, obj = case_of(ctx)
    ens = build(case, meta, obj)
    w = case.width()
    lo, hi = float(single(case.lo)), float(single(case.hi))
    grid = single(np.linspace(lo, hi, int(rng.choice([5, 9, case.npdf + 2]))))
    if case.knots is not None:
        grid = single(np.sort(case.points(rng, len(grid))))
    name, form = pick(rng, lists=True)
    fresh = build(case, meta, obj)
    got, want = ens.gridded(form(grid)), fresh.gridded(np.array(grid))
    alike(ctx, "gridded", got[0], want[0], name, "%s: gridded at %s, the grid" % (case.label, name))
    alike(ctx, "gridded", got[1], want[1], name, "%s: gridded at %s" % (case.label, name))
    name, form = pick(rng, lists=False)
    alike(ctx, "mode", build(case, meta, obj).mode(form(grid)), fresh.mode(np.array(grid)), name, "%s: mode at %s" % (case.label, name))
    bins = np.unique(grid)
    name, form = pick(rng, lists=False, single_too=False)
    got, want = ens.histogramize(form(bins)), fresh.histogramize(np.array(bins))
    alike(ctx, "histogramize", got[1], want[1], name, "%s: histogramize with bins given as %s" % (case.label, name))
    # limits: numbers, arrays and lists
    for name, given in (("tuple", (lo, hi)), ("list", [lo, hi]), ("array", np.array([lo, hi])), ("swapped", np.array([lo, hi], dtype=">f8")), ("np.float32", (np.float32(lo), np.float32(hi)))):
        alike(ctx, "integrate", ens.integrate(given), fresh.integrate((lo, hi)), "f4", "%s: integrate with limits given as %s" % (case.label, name))
        if w > 0.1:
            num = 1 if case.kind == "spline" else 2
            alike(ctx, "partial", ens.moment_partial(num, given, dx=w / 20.5), fresh.moment_partial(num, (lo, hi), dx=w / 20.5), "f4", "%s: moment_partial with limits given as %s" % (case.label, name))
    # true values
    truth = single(rng.uniform(lo, hi, size=case.npdf))
    if case.knots is not None:
        truth = single(case.points(rng, case.npdf, outside=0.0))
    name, form = pick(rng, lists=True)
    from qp.metrics.pit import PIT
    from lib import pit_samples

    alike(ctx, "pit", pit_samples(ens, form(truth)), pit_samples(fresh, np.array(truth)), name, "%s: PIT samples of true values given as %s" % (case.label, name))
    limits = (lo - 0.01 * w, hi + 0.01 * w)
    if np.all((truth >= limits[0]) & (truth <= limits[1])):
        alike(ctx, "brier", M.calculate_brier(ens, form(truth), limits, w / 10.3), M.calculate_brier(fresh, np.array(truth), limits, w / 10.3), name, "%s: brier with true values given as %s" % (case.label, name))
    alike(ctx, "outlier", M.calculate_outlier_rate(ens, lo, hi), M.calculate_outlier_rate(fresh, np.float64(lo), np.float64(hi)), name, "%s: outlier rate" % case.label)
    est = truth + single(0.05 * rng.normal(size=case.npdf))
    name, form = pick(rng, lists=False)
    for cls in (M.PointBias, M.PointStatsEz, M.PointSigmaIQR, M.PointSigmaMAD):
        alike(ctx, "point", cls().evaluate(form(np.abs(est)), form(np.abs(truth))), cls().evaluate(np.abs(est), np.abs(truth)), "f4", "%s of points given as %s" % (cls.metric_name, name), scale=1.0 + np.max(np.abs(est)))
    ctx.seen("arguments", case.label, name)


def helpers(ctx):
    """The helpers of qp.utils and the packing"""
    from qp import packing_utils, utils

    rng = ctx.rng
    npdf, num = int(rng.integers(1, 5)), int(rng.integers(4, 9))
    x = single(np.cumsum(rng.uniform(0.2, 1.0, size=num)))
    y = single(rng.uniform(0.1, 2.0, size=(npdf, num)))
    xs = single(np.cumsum(rng.uniform(0.2, 1.0, size=(npdf, num)), axis=1))
    pts = single(rng.uniform(x[0] - 0.3, x[-1] + 0.3, size=5))
    rows = np.arange(npdf)[:, None]
    fill = dict(bounds_error=False, fill_value=0.0)
    calls = [
        ("interpolate_x_multi_y", (pts, rows, x, y), fill),
        ("interpolate_multi_x_multi_y", (pts, rows, xs, y), fill),
        ("interpolate_multi_x_y", (pts, rows, xs, y[0]), fill),
        ("evaluate_hist_x_multi_y", (pts, rows, x, y[:, :-1]), {}),
        ("evaluate_hist_multi_x_multi_y", (pts, rows, xs, y[:, :-1]), {}),
        ("get_bin_indices", (x, pts), {}),
        ("normalize_interp1d", (xs, y), {}),
        ("safelog", (y,), {}),
    ]
    func, args, kwds = calls[int(rng.integers(len(calls)))]
    names = []

    def formed(val):
        name, form = pick(rng)
        if name == "masked":
            # scipy's interpolation takes no masked arrays
            name, form = "window", window
        names.append(name)
        return form(np.array(val))

    target = getattr(utils, func, None)
    if target is not None:
        want = target(*[np.array(a) for a in args], **kwds)
        got = target(*[formed(a) for a in args], **kwds)
        for g, w in zip(got if isinstance(want, tuple) else [got], want if isinstance(want, tuple) else [want]):
            alike(ctx, func, g, w, " ".join(names), "%s of %s" % (func, names))
        ctx.seen("helpers", func, tuple(names))
    name, form = pick(rng)
    typ = packing_utils.PackingType(int(rng.choice([t.value for t in (packing_utils.PackingType.linear_from_rowmax, packing_utils.PackingType.log_from_rowmax)])))
    want, wmax = packing_utils.pack_array(typ, np.array(y))
    got, gmax = packing_utils.pack_array(typ, form(np.array(y)))
    ctx.true("pack", got.dtype == np.uint8 and np.max(np.abs(np.asarray(got).astype(int) - want)) <= (1 if name == "f4" else 0), "packing of %s" % name)
    alike(ctx, "pack", gmax, wmax, name, "row_max of %s" % name)
    back = packing_utils.unpack_array(typ, form(np.array(want)), row_max=form(np.array(wmax)))
    alike(ctx, "unpack", back, packing_utils.unpack_array(typ, want, row_max=wmax), name, "unpacking of %s" % name)


INTS = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8"]


def narrow(ctx):
    """Whole numbers up to the limits of their type"""
    rng = ctx.rng
    typ = np.dtype(INTS[(ctx.index // 6) % len(INTS)])
    kind = ["hist", "interp", "irr", "mixmod", "quant", "packed"][ctx.index % 6]
    top = min(int(np.iinfo(typ).max), 10**6)
    npdf, num = int(rng.integers(1, 5)), int(rng.integers(5, 9))
    if rng.random() < 0.5:
        top = max(int(top * rng.uniform(0.2, 1)), 60)
    low = -top if typ.kind == "i" and rng.random() < 0.4 else 0

    def grid(n):
        inner = rng.choice(np.arange(1, 40), size=n - 2, replace=False)
        return np.concatenate([[low], np.sort(low + inner * ((top - low) // 40)), [top]])

    def vals(n):
        out = rng.integers(0, top + 1, size=(npdf, n))
        out[:, 1:3] = np.maximum(out[:, 1:3], top // 2)
        return out

    floats = {}
    if kind == "hist":
        gen, data = qp.hist, dict(bins=grid(num + 1), pdfs=vals(num))
    elif kind == "interp":
        gen, data = qp.interp, dict(xvals=grid(num), yvals=vals(num))
    elif kind == "irr":
        gen, data = qp.interp_irregular, dict(xvals=np.array([grid(num) for _ in range(npdf)]), yvals=vals(num))
    elif kind == "mixmod":
        gen, data = qp.mixmod, dict(means=rng.integers(low, top + 1, size=(npdf, 3)), stds=rng.integers(max(top // 8, 1), max(top // 3, 2) + 1, size=(npdf, 3)), weights=rng.integers(1, top + 1, size=(npdf, 3)))
    elif kind == "quant":
        gen, data = qp.quant, dict(locs=np.array([grid(num) for _ in range(npdf)]))
        quants = np.linspace(0.05, 0.95, num) if rng.random() < 0.5 else np.linspace(0, 1, num)
        floats = dict(quants=quants, pdf_constructor_name=str(rng.choice(["piecewise_linear", "piecewise_constant", "cdf_spline_derivative"])))
    else:
        gen, data = qp.packed_interp, dict(xvals=grid(num), ymax=rng.integers(1, top + 1, size=(npdf, 1)))
        packed = rng.integers(0, 256, size=(npdf, num)).astype("u1")
        packed[:, 1] = 255
        floats = dict(ypacked=packed, packing_type=int(rng.integers(2)), log_floor=-3.0)
    which = [k for k in data if rng.random() < 0.7] or list(data)
    given = {k: (v.astype(typ) if k in which else v.astype(float)) for k, v in data.items()}
    lab = "%s with %s of type %s" % (kind, which, typ)
    ens = qp.Ensemble(gen, data={**given, **floats})
    want = qp.Ensemble(gen, data={**{k: v.astype(float) for k, v in data.items()}, **floats})
    span = float(top - low)
    x = np.unique(rng.integers(low, top + 1, size=6)) + (0.37 if rng.random() < 0.5 else 0)
    q = rng.uniform(0.05, 0.95, size=3)
    for oper in rng.permutation(["pdf", "cdf", "ppf", "mean", "moment", "histogramize", "rvs", "again"]):
        oper = str(oper)
        if oper in ("pdf", "cdf"):
            alike(ctx, oper, getattr(ens, oper)(x), getattr(want, oper)(x), "", "%s: %s" % (lab, oper))
        elif oper == "ppf":
            alike(ctx, oper, ens.ppf(q), want.ppf(q), "", "%s: ppf" % lab, scale=span)
        elif oper == "mean" and kind in ("hist", "interp", "packed"):
            alike(ctx, oper, ens.mean(), want.mean(), "", "%s: mean" % lab, scale=span)
        elif oper == "moment" and kind in ("hist", "interp", "packed"):
            n = int(rng.integers(1, 5))
            alike(ctx, oper, ens.moment(n), want.moment(n), "", "%s: moment %i" % (lab, n), scale=span**n)
        elif oper == "histogramize":
            bins = np.array([low, low + (top - low) // 3, top])
            alike(ctx, oper, ens.histogramize(bins.astype(typ))[1], want.histogramize(bins.astype(float))[1], "", "%s: histogramize with bins of that type" % lab)
        elif oper == "rvs":
            alike(ctx, oper, ens.rvs(size=3, random_state=2), want.rvs(size=3, random_state=2), "", "%s: samples" % lab, scale=span)
        elif oper == "again":
            rows = rng.permutation(npdf)
            alike(ctx, oper, ens[rows].cdf(x), np.asarray(want.cdf(x))[rows], "", "%s: cdf of selected PDFs" % lab)
            two = qp.concatenate([ens, want])
            alike(ctx, oper, two.cdf(x), np.tile(np.asarray(want.cdf(x)), (2, 1)), "", "%s: cdf with the same in floats behind" % lab)
    if np.all(x == np.round(x)):
        alike(ctx, "points", ens.pdf(x.astype(typ)), want.pdf(x.astype(float)), "", "%s: pdf at points of that type" % lab)
    ctx.seen("narrow", kind, typ, tuple(which), low < 0)


def nested(ctx):
    """PDFs along several axes, in any layout"""
    rng = ctx.rng
    case, meta, obj = case_of(ctx)
    if case.kind == "sparse":
        return
    front = [(1, case.npdf), (case.npdf, 1), (case.npdf, 2), (2, case.npdf), (2, case.npdf, 2)][int(rng.integers(5))]
    rep = int(np.prod(front)) // case.npdf
    flat = {k: np.concatenate([np.roll(v, i, axis=0) for i in range(rep)]) for k, v in obj.items()}
    want = build(case, meta, flat)
    names = []

    def formed(key, val):
        if not isinstance(val, np.ndarray):
            return val
        name, form = pick(rng, single_too=False)
        names.append("%s: %s" % (key, name))
        return form(np.array(val))

    given = {k: formed(k, v) for k, v in deep(meta).items()}
    given.update({k: formed(k, v.reshape(front + v.shape[1:])) for k, v in flat.items()})
    ens = qp.Ensemble(case.gen, data=given)
    lab = "%s of shape %s built from %s" % (case.label, front, ", ".join(names))
    w = case.width()
    x, q = np.sort(case.points(rng, 5)), rng.uniform(0.05, 0.95, size=2)

    def shaped(vals):
        vals = np.asarray(vals)
        return vals.reshape(front + vals.shape[1:])

    alike(ctx, "nested", ens.pdf(x), shaped(want.pdf(x)), "", lab + ": pdf")
    alike(ctx, "nested", ens.cdf(x), shaped(want.cdf(x)), "", lab + ": cdf")
    if case.kind != "spline":
        alike(ctx, "nested", ens.ppf(q), shaped(want.ppf(q)), "", lab + ": ppf", scale=w)
        grid = np.linspace(case.lo, case.hi, 6)
        name, form = pick(rng, single_too=False)
        alike(ctx, "nested", ens.histogramize(form(grid))[1], shaped(want.histogramize(grid)[1]), "", "%s: histogramize at %s" % (lab, name))
    tables = ens.build_tables()["data"]
    for key, val in want.build_tables()["data"].items():
        ctx.close("nested", np.asarray(tables[key], float).reshape(np.shape(val)), np.asarray(val, float), rtol=1e-12, atol=0, msg="%s: table of %s" % (lab, key))
    ctx.seen("nested", case.label, front, names[-1])


WORKLOADS = [("narrow", narrow), ("nested", nested), ("points", points), ("data", data), ("arguments", arguments), ("helpers", helpers)]
