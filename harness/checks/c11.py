"""C11: slicing keeps each PDF with its own data and ancillary row."""
import numpy as np

import qp
from gens import gen_ancil, gen_case
from lib import close_vals, dict_equal, snapshot, state_equal
from monitors import random_key

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")
TRUTH_FUNCS = ("pdf", "cdf", "sf")


def more_keys(rng, npdf):
    """Keys of types that random_key() does not use"""
    rows = np.arange(npdf)
    style = int(rng.integers(0, 10))
    if style == 0:
        key = np.int64(rng.integers(-npdf, npdf))
        return key, rows[[key]], "np.int"
    if style == 1:
        key = slice(None)
    elif style == 2:
        key = slice(int(rng.integers(0, npdf)), None, -1)
    elif style == 3:
        key = slice(0, npdf + 5, int(rng.integers(1, 4)))
    elif style == 4:
        key = slice(-1, None)
    elif style == 5:
        key = np.array(rng.integers(0, npdf, size=3), dtype=str(rng.choice(["i4", "u1", "i8"])))
    elif style == 6:
        mask = rng.random(npdf) < 0.5
        mask[int(rng.integers(npdf))] = True
        return [bool(v) for v in mask], rows[mask], "list of bool"
    elif style == 7:
        key = rng.permutation(npdf)
    elif style == 8:
        key = np.repeat(rng.integers(-npdf, npdf), 3)
    else:
        key = int(rng.choice([-npdf, npdf - 1, -1, 0]))
        return key, rows[[key]], "int edge"
    return key, rows[key], type(key).__name__


def judge(ctx, got, case, ens, rows, anc, xs, qs, lab):
    """An ensemble made by slicing holds exactly the given rows"""
    ctx.true("class", got.gen_class is ens.gen_class, "%s: class %s" % (lab, got.gen_class))
    if not ctx.true("npdf", got.npdf == len(rows), "%s: npdf %s, expected %i" % (lab, got.npdf, len(rows))):
        return
    ctx.true("shape", tuple(np.atleast_1d(got.shape)) == (len(rows),), "%s: shape %s" % (lab, got.shape))
    exact = case.kind not in RENORM
    dict_equal(ctx, "meta", got.metadata(), ens.metadata(), "%s: metadata" % lab, exact=exact, rtol=1e-13)
    want_obj = {k: np.asarray(v)[rows] for k, v in ens.objdata().items()}
    dict_equal(ctx, "objdata", got.objdata(), want_obj, "%s: objdata" % lab, exact=exact, rtol=1e-13)
    if anc is None:
        ctx.true("ancil", got.ancil is None, "%s: ancil is %s" % (lab, got.ancil))
    else:
        dict_equal(ctx, "ancil", got.ancil, {k: v[rows] for k, v in anc.items()}, "%s: ancil" % lab)
    for fun in TRUTH_FUNCS:
        close_vals(ctx, fun, getattr(got, fun)(xs), getattr(ens, fun)(xs)[rows], "%s: %s" % (lab, fun), width=case.width())
    # per-PDF points
    own = np.array([np.roll(xs, int(r)) for r in range(ens.npdf)])
    close_vals(ctx, "pdf2d", got.pdf(own[rows]), ens.pdf(own)[rows], "%s: pdf at points of each PDF" % lab, width=case.width())
    if qs is not None and case.kind != "mixmod":
        ctx.close("ppf", got.ppf(qs), ens.ppf(qs)[rows], rtol=1e-8, atol=1e-9 * case.width(), msg="%s: ppf" % lab)
    # the model of the rows, built from the constructor data
    i = int(ctx.rng.integers(len(rows)))
    close_vals(ctx, "model", got[i].pdf(xs), case.single(rows[i]).pdf(xs), "%s: row %i" % (lab, i), width=case.width())
    ctx.ev("slices")


def slices(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.8 else None
    if anc is not None and rng.random() < 0.3:
        anc["name"] = np.array(["galaxy %i" % k for k in range(case.npdf)])
    ens = case.make(ancil=None if anc is None else {k: v.copy() for k, v in anc.items()})
    if case.kind == "quant" and rng.random() < 0.5:
        ens.dist.pdf_constructor_name = str(rng.choice(["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]))
        case = case.subset(np.arange(case.npdf))
        case.meta = dict(case.meta, pdf_constructor_name=ens.dist.pdf_constructor_name)
    xs = np.sort(case.points(rng, int(rng.choice([3, case.npdf]))))
    qs = None if case.kind == "spline" and rng.random() < 0.6 else rng.uniform(0.05, 0.95, size=2)
    before = snapshot(ens, xs)
    cur, rows = ens, np.arange(case.npdf)
    for depth in range(int(rng.integers(1, 4))):
        if rng.random() < 0.5:
            key, sel = random_key(rng, cur.npdf)
            kind = type(key).__name__
        else:
            key, sel, kind = more_keys(rng, cur.npdf)
        ctx.note("slice", kind, str(key)[:60])
        if rng.random() < 0.3:
            cur.gridded(xs)
        cur, rows = cur[key], rows[sel]
        judge(ctx, cur, case, ens, rows, anc, xs, qs, "%s[%s] at depth %i" % (case.label, str(key)[:40], depth))
        ctx.seen(case.label, kind, depth, "ancil" if anc else "", "n1" if case.npdf == 1 else "n")
    state_equal(ctx, "parent", snapshot(ens, xs), before, "%s: the parent after slicing" % case.label)


def iterate(ctx):
    """Iterating gives each PDF once in order; an index out of range raises IndexError"""
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.8 else None
    ens = case.make(ancil=anc)
    xs = np.sort(case.points(rng, 3))
    ones = list(ens)
    if ctx.true("count", len(ones) == case.npdf, "%s: iterating gave %i of %i PDFs" % (case.label, len(ones), case.npdf)):
        for i, one in enumerate(ones):
            judge(ctx, one, case, ens, np.array([i]), anc, xs, None, "%s: PDF %i of an iteration" % (case.label, i))
    bad = int(rng.choice([case.npdf, case.npdf + 3, -case.npdf - 1, 10**6]))
    ctx.raises("out-of-range", IndexError, lambda: ens[bad], "%s of %i PDFs: ens[%i]" % (case.label, case.npdf, bad))
    ctx.raises("out-of-range", IndexError, lambda: ens[np.array([0, bad])], "%s of %i PDFs: ens[[0, %i]]" % (case.label, case.npdf, bad))
    # partly consumed, and nested iterations
    seen = []
    for i, one in enumerate(ens):
        for j, two in enumerate(ens):
            if j > 1:
                break
            seen.append((i, j))
            close_vals(ctx, "nested", two.pdf(xs), ens.pdf(xs)[[j]], "%s: nested iteration" % case.label, width=case.width())
        if i > 2:
            break
        close_vals(ctx, "nested", one.pdf(xs), ens.pdf(xs)[[i]], "%s: outer iteration" % case.label, width=case.width())
    ctx.seen("iterate", case.label, "n1" if case.npdf == 1 else "n")


def independent(ctx):
    """Changing a slice does not change its parent or its siblings, and the other way round"""
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf)
    ens = case.make(ancil=anc)
    xs = np.sort(case.points(rng, 3))
    key, rows = random_key(rng, case.npdf)
    part, other = ens[key], ens[key]
    want, whole = snapshot(part, xs), snapshot(ens, xs)
    oper = ["append", "add_to_ancil", "set_ancil", "update", "parent"][(ctx.index // 9) % 5]
    if oper == "append":
        part.append(ens)
    elif oper == "add_to_ancil":
        part.add_to_ancil(dict(idx=np.zeros(part.npdf), new=np.zeros(part.npdf)))
    elif oper == "set_ancil":
        part.set_ancil(None)
    elif oper == "update":
        part.update(case.data(rng.integers(0, case.npdf, size=part.npdf)))
    else:
        ens.append(part)
        state_equal(ctx, "slice", snapshot(part, xs), want, "%s: slice after changing its parent" % case.label)
    if oper != "parent":
        state_equal(ctx, "parent", snapshot(ens, xs), whole, "%s: parent after %s of a slice" % (case.label, oper))
    state_equal(ctx, "sibling", snapshot(other, xs), want, "%s: sibling after %s" % (case.label, oper))
    ctx.seen("independent", case.label, oper)


WORKLOADS = [("slices", slices), ("iterate", iterate), ("independent", independent)]
