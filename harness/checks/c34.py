"""C34: ensembles of PDFs arranged along several axes give the values of their PDFs, in that arrangement.

The same numbers are given to the constructors twice: arranged as a table of PDFs (npdf first
axes replaced by 2 or 3 axes), and as a plain list of PDFs, which is judged by the other checks.
"""
import copy
import os

import numpy as np

import qp
from common import deep
from gens import GENS, gen_ancil, too_slow
from lib import close_vals
from qp.packing_utils import PackingType

KINDS = [k for k in GENS if k != "sparse"]
SHAPES = [(2, 3), (3, 2), (2, 2), (1, 4), (4, 1), (2, 1, 3), (2, 2, 2), (1, 1), (5, 2), (1, 2, 1), (3, 3)]


def nested_case(ctx):
    """A case, and the shape in which its PDFs are arranged"""
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)]
    shape = SHAPES[int(rng.integers(len(SHAPES)))]
    case = GENS[kind](rng, npdf=int(np.prod(shape)))
    return case, shape


def arranged(val, shape):
    val = np.asarray(val)
    return val.reshape(shape + val.shape[1:])


def make(case, shape, ancil=None):
    data = deep(case.meta)
    for key, val in case.obj.items():
        data[key] = np.array(arranged(val, shape))
    return qp.Ensemble(case.gen, data=data, ancil=ancil)


def compare(ctx, key, case, shape, got, want, lab, width=None):
    """The values of the arranged ensemble are those of the list, arranged"""
    got, want = np.asarray(got), np.asarray(want)
    expect = shape + want.shape[1:]
    if not ctx.true(key + "-shape", got.shape == expect, "%s %s: %s has shape %s, expected %s" % (case.label, shape, lab, got.shape, expect)):
        return
    close_vals(ctx, key, got.reshape(want.shape), want, "%s %s: %s" % (case.label, shape, lab), width=width)


def same_pdfs(ctx, key, case, shape, got, want, xs, lab):
    """Two ensembles hold the same PDFs in C order, whatever the arrangement"""
    if not ctx.true(key + "-npdf", got.npdf == want.npdf, "%s %s: %s has %s PDFs, expected %s" % (case.label, shape, lab, got.npdf, want.npdf)):
        return
    for func in ("pdf", "cdf"):
        val, ref = np.asarray(getattr(got, func)(xs)), np.asarray(getattr(want, func)(xs))
        if ctx.true(key + "-size", val.size == ref.size, "%s %s: %s, %s has %s values, expected %s" % (case.label, shape, lab, func, val.size, ref.size)):
            close_vals(ctx, key, val.reshape(ref.shape), ref, "%s %s: %s, %s" % (case.label, shape, lab, func), width=case.width())


def values(ctx):
    """Every evaluation"""
    rng = ctx.rng
    case, shape = nested_case(ctx)
    ens, flat = make(case, shape), case.make()
    ctx.true("shape", tuple(ens.shape) == shape and ens.npdf == case.npdf and ens.ndim == len(shape),
             "%s: shape %s, npdf %s, ndim %s of an ensemble arranged as %s" % (case.label, ens.shape, ens.npdf, ens.ndim, shape))
    n = int(rng.choice([1, 2, 3, 7, shape[-1], case.npdf]))
    xs = np.sort(case.points(rng, n)) if rng.random() < 0.5 else case.points(rng, n)
    w = case.width()
    order = ["pdf", "cdf", "sf", "logpdf", "logcdf", "logsf", "gridded", "histogramize", "mode"]
    rng.shuffle(order)
    for func in order[: int(rng.integers(4, len(order) + 1))]:
        if func == "gridded":
            grid = np.sort(xs)
            a, b = ens.gridded(grid), flat.gridded(grid)
            ctx.equal("grid", a[0], b[0], "%s %s: grid" % (case.label, shape))
            compare(ctx, func, case, shape, a[1], b[1], func, width=w)
        elif func == "histogramize":
            bins = np.linspace(case.lo - 0.013 * w, case.hi + 0.017 * w, int(rng.choice([3, 4, 9])))
            a, b = ens.histogramize(bins), flat.histogramize(bins)
            ctx.equal("bins", a[0], b[0], "%s %s: bins" % (case.label, shape))
            compare(ctx, func, case, shape, a[1], b[1], func)
        elif func == "mode":
            grid = np.linspace(case.lo, case.hi, int(rng.choice([5, 50, shape[-1] + 1])))
            compare(ctx, func, case, shape, ens.mode(grid), flat.mode(grid), func)
        elif not too_slow(case, func, len(xs)):
            compare(ctx, func, case, shape, getattr(ens, func)(xs), getattr(flat, func)(xs), func, width=w)
    if case.kind in ("hist", "mixmod", "scipy"):
        want = case.ref_cdf(xs)
        got = np.asarray(ens.cdf(xs))
        if got.shape == shape + (len(xs),):
            ctx.close("cdf-ref", got.reshape(want.shape), want, rtol=1e-7, atol=1e-7, msg="%s %s: cdf, and the definition" % (case.label, shape))
    qs = rng.uniform(0.02, 0.98, size=int(rng.choice([1, 2, 3])))
    if case.kind != "spline" or case.npdf <= 6:
        for func in ("ppf", "isf"):
            compare(ctx, func, case, shape, getattr(ens, func)(qs), getattr(flat, func)(qs), func)
        a, b = ens.interval(0.4), flat.interval(0.4)
        for k in (0, 1):
            compare(ctx, "interval", case, shape, a[k], b[k], "interval")
    ctx.seen("values", case.label, shape, n == 1)


def summaries(ctx):
    """Moments and point estimates"""
    rng = ctx.rng
    case, shape = nested_case(ctx)
    if case.kind == "spline" and case.npdf > 4:
        shape = (2, 2)
        case = case.subset(rng.integers(0, case.npdf, size=4))
    ens, flat = make(case, shape), case.make()
    # the moments of the others are integrated numerically by scipy
    slow = case.kind in ("spline", "interp_irregular", "quant", "mixmod")
    funcs = ["median"] if slow else ["mean", "std", "var", "median"]
    if slow and ctx.index % (18 if ctx.tier == "quick" else 36) < 9 and case.kind != "mixmod":
        funcs.append("mean")
    if not slow and rng.random() < 0.1:
        funcs.append("entropy")
    for func in funcs:
        with np.errstate(all="ignore"):
            compare(ctx, func, case, shape, getattr(ens, func)(), getattr(flat, func)(), func)
    mom = int(rng.integers(1, 4))
    if not slow:
        compare(ctx, "moment", case, shape, ens.moment(mom), flat.moment(mom), "moment(%i)" % mom)
        a, b = ens.stats(moments="mv"), flat.stats(moments="mv")
        for k in (0, 1):
            compare(ctx, "stats", case, shape, a[k], b[k], "stats")
    lo, hi = case.lo + 0.1 * case.width(), case.hi - 0.2 * case.width()
    compare(ctx, "integrate", case, shape, ens.integrate((lo, hi)), flat.integrate((lo, hi)), "integrate")
    compare(ctx, "partial", case, shape, ens.moment_partial(mom, (lo, hi)), flat.moment_partial(mom, (lo, hi)), "moment_partial(%i)" % mom)
    ctx.seen("summaries", case.label, shape)


def samples(ctx):
    """Samples, with the same random state, and of the PDF they belong to"""
    rng = ctx.rng
    case, shape = nested_case(ctx)
    if case.kind == "spline" and case.npdf > 4:
        shape = (2, 2)
        case = case.subset(rng.integers(0, case.npdf, size=4))
    ens, flat = make(case, shape), case.make()
    size = None if rng.random() < 0.1 else int(rng.choice([1, 2, 3, 5, 20]))
    seed = int(rng.integers(2**31))
    got = np.asarray(ens.rvs(size=size, random_state=np.random.RandomState(seed)))
    want = np.asarray(flat.rvs(size=size, random_state=np.random.RandomState(seed)))
    compare(ctx, "rvs", case, shape, got, want, "rvs(%s)" % size)
    ctx.seen("samples", case.label, shape, size)


def conversions(ctx):
    """Converted ensembles keep the PDFs and their arrangement"""
    rng = ctx.rng
    case, shape = nested_case(ctx)
    ens, flat = make(case, shape), case.make()
    w = case.width()
    grid = np.linspace(case.lo - 0.011 * w, case.hi + 0.013 * w, int(rng.choice([12, 30])))
    ways = [("hist", dict(bins=grid)), ("interp", dict(xvals=grid)), ("interp_irregular", dict(xvals=grid)),
            ("quant", dict(quants=np.linspace(0.02, 0.98, 9))),
            ("packed_interp", dict(xvals=grid, packing_type=PackingType.linear_from_rowmax)),
            ("packed_interp", dict(xvals=grid, packing_type=PackingType.log_from_rowmax)),
            ("hist", dict(bins=grid, method="samples", size=200))]
    if case.kind == "spline":
        ways = [way for way in ways if way[0] != "quant" and "size" not in way[1]]
    name, kwds = ways[int(rng.integers(len(ways)))]
    seed = int(rng.integers(2**31))
    xs = rng.uniform(case.lo, case.hi, size=5)
    state = np.random.get_state()
    try:
        np.random.seed(seed)
        try:
            want = qp.convert(flat, name, **deep(kwds))
            vals = dict(pdf=want.pdf(xs), cdf=want.cdf(xs))
        except ValueError:
            # quantiles at the same place
            return
        np.random.seed(seed)
        got = qp.convert(ens, name, **deep(kwds))
    finally:
        np.random.set_state(state)
    lab = "converted to %s" % name
    ctx.true("conv-shape", tuple(got.shape) == shape and got.npdf == case.npdf, "%s %s: %s has shape %s, npdf %s" % (case.label, shape, lab, got.shape, got.npdf))
    for func in ("pdf", "cdf"):
        compare(ctx, "conv-" + func, case, shape, getattr(got, func)(xs), vals[func], "%s, %s" % (lab, func), width=w)
    ctx.seen("conversions", case.label, name, kwds.get("packing_type"), "size" in kwds)


def mixtures(ctx):
    """Mixtures fitted to samples: each PDF gets the fit to its own samples"""
    rng = ctx.rng
    shape = SHAPES[int(rng.integers(len(SHAPES)))]
    npdf = int(np.prod(shape))
    if npdf > 6:
        shape, npdf = (2, 2), 4
    # well separated PDFs, so that any mixup is far off

    loc = rng.permutation(npdf)[:, None] * 10.0
    scale = rng.uniform(0.5, 1.5, size=(npdf, 1))
    ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc.reshape(shape + (1,)), scale=scale.reshape(shape + (1,))))
    got = qp.convert(ens, "mixmod", ncomps=2, nsamples=200, random_state=int(rng.integers(2**31)))
    ctx.true("mix-shape", tuple(got.shape) == shape, "mixtures of %s: shape %s" % (shape, got.shape))
    # where each PDF is, from its cdf: the probability within 6 sigma of its own place
    for i in range(npdf):
        lim = np.array([loc[i, 0] - 6 * scale[i, 0], loc[i, 0] + 6 * scale[i, 0]])
        cdf = np.asarray(got.cdf(lim))
        if cdf.size == 2 * npdf:
            prob = np.diff(cdf.reshape(npdf, 2)[i])[0]
            ctx.true("mix", prob > 0.9, "mixture %i of %s: probability %.3g at the place of its PDF" % (i, shape, prob))
        else:
            ctx.fail("mix", "mixtures of %s: the cdf has shape %s" % (shape, cdf.shape))
    ctx.seen("mixtures", shape)


def lives(ctx):
    """Storage, copies, appending, updates"""
    rng = ctx.rng
    case, shape = nested_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.6 else None
    ens, flat = make(case, shape, ancil=deep(anc)), case.make(ancil=deep(anc))
    xs = np.sort(case.points(rng, 5))
    oper = str(rng.choice(["file", "file", "tables", "copy", "append", "concatenate", "update", "objdata", "ancil"]))
    if oper == "file" and case.kind == "spline":
        ext = "hdf5"
    else:
        ext = str(rng.choice(["hdf5", "fits"]))
    lab = oper
    if oper == "file":
        path = os.path.join(ctx.scratch, "nested%i.%s" % (ctx.index, ext))
        ens.write_to(path)
        back = qp.read(path)
        os.remove(path)
        lab = "read from " + ext
        same_pdfs(ctx, "file", case, shape, back, flat, xs, lab)
        if anc is not None:
            for key, val in anc.items():
                got = np.asarray(back.ancil[key])
                ctx.true("file-ancil", len(got) == case.npdf, "%s %s: %s, ancil %s has length %s" % (case.label, shape, lab, key, np.shape(got)))
                if val.dtype.kind in "if":
                    ctx.equal("file-ancil", got, val, "%s %s: %s, ancil %s" % (case.label, shape, lab, key))
    elif oper == "tables":
        back = qp.from_tables(ens.build_tables())
        same_pdfs(ctx, "tables", case, shape, back, flat, xs, "from_tables")
    elif oper == "copy":
        back = copy.deepcopy(ens)
        for func in ("pdf", "cdf"):
            compare(ctx, "copy", case, shape, getattr(back, func)(xs), getattr(flat, func)(xs), "deep copy, " + func, width=case.width())
    elif oper in ("append", "concatenate"):
        other = make(case, shape, ancil=deep(anc))
        both = np.concatenate([np.arange(case.npdf)] * 2)
        if oper == "append":
            ens.append(other)
            back = ens
        else:
            back = qp.concatenate([ens, other])
        want = case.make(rows=both)
        same_pdfs(ctx, "append", case, shape, back, want, xs, oper)
        if anc is not None:
            for key, val in anc.items():
                ctx.equal("append-ancil", back.ancil[key], np.concatenate([val, val]), "%s %s: %s, ancil %s" % (case.label, shape, oper, key))
    elif oper == "update":
        new, nshape = GENS[case.kind if case.kind in GENS else "hist"](rng, npdf=6), (3, 2)
        if new.gen is case.gen:
            data = deep(new.meta)
            data.update({k: np.array(arranged(v, nshape)) for k, v in new.obj.items()})
            ens.pdf(xs)
            ens.update(data)
            ys = np.sort(new.points(rng, 5))
            want = new.make()
            ctx.true("update-shape", tuple(ens.shape) == nshape and ens.npdf == 6, "%s: shape %s, npdf %s after an update to %s" % (case.label, ens.shape, ens.npdf, nshape))
            for func in ("pdf", "cdf"):
                compare(ctx, "update", new, nshape, getattr(ens, func)(ys), getattr(want, func)(ys), "updated, " + func, width=new.width())
    elif oper == "objdata":
        if case.kind not in ("quant",):
            perm = rng.permutation(case.npdf)
            ens.update_objdata({k: np.array(arranged(v[perm], shape)) for k, v in case.obj.items()})
            want = case.make(rows=perm)
            same_pdfs(ctx, "objdata", case, shape, ens, want, xs, "update_objdata")
    elif oper == "ancil":
        new = gen_ancil(rng, case.npdf)
        ens.set_ancil(deep(new))
        for key, val in new.items():
            ctx.equal("ancil", ens.ancil[key], val, "%s %s: ancil %s" % (case.label, shape, key))
        bad = dict(bad=np.zeros(case.npdf + 1))
        ctx.raises("bad-ancil", (Exception,), lambda: ens.add_to_ancil(bad), "%s %s: ancil of length npdf + 1" % (case.label, shape))
        for key, val in new.items():
            ctx.equal("ancil", ens.ancil[key], val, "%s %s: ancil %s after a rejected one" % (case.label, shape, key))
        for func in ("pdf", "cdf"):
            compare(ctx, "with-ancil", case, shape, getattr(ens, func)(xs), getattr(flat, func)(xs), "with ancil, " + func, width=case.width())
    ctx.seen("lives", case.label, lab, shape, anc is not None)


WORKLOADS = [("values", values), ("summaries", summaries), ("samples", samples), ("conversions", conversions), ("mixtures", mixtures), ("lives", lives)]
