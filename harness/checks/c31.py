"""C31: copies of an ensemble are equal to it, complete, and independent of it."""
import copy
import pickle

import numpy as np

import qp
from gens import gen_ancil, gen_case
from lib import dict_equal, probe_points, snapshot, state_equal

WAYS = ["copy", "deepcopy", "pickle", "slice", "rebuild", "concatenate", "frozen deepcopy", "frozen pickle"]
RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")


def make_copy(way, ens, rng):
    if way == "copy":
        return copy.copy(ens)
    if way == "deepcopy":
        return copy.deepcopy(ens)
    if way == "pickle":
        return pickle.loads(pickle.dumps(ens, protocol=int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))))
    if way == "slice":
        return ens[:]
    if way == "rebuild":
        return qp.from_tables({k: {kk: np.array(vv) for kk, vv in v.items()} for k, v in ens.build_tables().items()})
    if way == "concatenate":
        return qp.concatenate([ens])
    raise KeyError(way)


def change(rng, case, ens, way):
    """Change an ensemble through its API; returns what was done"""
    ops = ["append", "update", "ancil", "add", "gridded", "update_objdata", "column"]
    if way == "copy":
        # (a shallow copy shares the distribution, which is never changed in place by these)
        ops.remove("gridded")
        ops.remove("column")
    op = ops[int(rng.integers(0, len(ops)))]
    n = ens.npdf
    if op == "append":
        ens.append(case.make())
    elif op == "update":
        ens.update(case.data(rng.permutation(case.npdf)[:1]))
    elif op == "update_objdata":
        rows = rng.permutation(case.npdf)
        ens.update_objdata({k: np.array(v)[rows] for k, v in case.make().objdata().items()})
    elif op == "ancil":
        ens.set_ancil(dict(other=np.arange(n) * 7.0))
    elif op == "column" and ens.ancil is not None:
        # (the table of the ensemble itself, not its arrays)
        ens.ancil["zero"] = np.arange(n) * 5.0
        ens.ancil.pop(sorted(ens.ancil)[0])
    elif op == "add":
        ens.add_to_ancil(dict(more=np.arange(n) * 3))
    else:
        grid = np.sort(case.points(rng, 6))
        ens.gridded(grid)
        ens.mode(grid)
    return op


def scribble(ens, keep):
    """Overwrite the arrays that an ensemble shows, in place"""
    for k, v in list(ens.objdata().items()) + list((ens.ancil or {}).items()):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fiu" and k not in keep:
            v[...] = 1


def copies(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.7 else None
    ens = case.make(ancil=None if anc is None else {k: np.array(v) for k, v in anc.items()})
    way = WAYS[(ctx.index // 9) % 6]
    if way == "pickle" and case.kind == "scipy" or case.variant == "scipy" and way == "pickle":
        way = "deepcopy"
    xs, qs = probe_points(case, rng)
    if rng.random() < 0.5:
        # with a history, and something in the cache
        ens.gridded(xs)
        ens.append(case.make(ancil=anc))
        if rng.random() < 0.5:
            ens.gridded(np.sort(case.points(rng, 4)))
    want = snapshot(ens, xs, qs)
    lab = "%s %s" % (case.label, way)
    ctx.note(lab, ens.npdf)
    twin = make_copy(way, ens, rng)
    exact = not (case.kind in RENORM and way in ("slice", "rebuild", "concatenate"))
    state_equal(ctx, "equal", snapshot(twin, xs, qs), want, "%s: the copy" % lab, exact=exact, rtol=1e-13)
    grid = np.sort(case.points(rng, 5))
    ctx.close("gridded", twin.gridded(grid)[1], case.make().pdf(grid)[np.arange(ens.npdf) % case.npdf], rtol=1e-8, atol=1e-10 / case.width(), msg="%s: gridded of the copy" % lab)
    # what is done to one is not seen by the other
    state_equal(ctx, "original", snapshot(ens, xs, qs), want, "%s: original, after gridded() of the copy" % lab)
    state = snapshot(twin, xs, qs)
    op = change(rng, case, ens, way)
    state_equal(ctx, "copy", snapshot(twin, xs, qs), state, "%s: copy, after %s of the original" % (lab, op))
    state = snapshot(ens, xs, qs)
    op = change(rng, case, twin, way)
    state_equal(ctx, "original", snapshot(ens, xs, qs), state, "%s: original, after %s of the copy" % (lab, op))
    # the copy is a complete ensemble
    i = int(rng.integers(case.npdf))
    fresh = make_copy(way, case.make(), rng)
    ctx.close("slice", fresh[i].pdf(xs), case.single(i).pdf(xs), rtol=1e-8, atol=1e-11 / case.width(), msg="%s: row %i of the copy" % (lab, i))
    fresh.append(case.make())
    ctx.true("append", fresh.npdf == 2 * case.npdf, "%s: %s PDFs after append" % (lab, fresh.npdf))
    ctx.close("append", fresh.pdf(xs), np.concatenate([case.make().pdf(xs)] * 2), rtol=1e-8, atol=1e-11 / case.width(), msg="%s: appended" % lab)
    if way in ("deepcopy", "pickle"):
        # nothing is shared at all
        one = case.make(ancil=None if anc is None else {k: np.array(v) for k, v in anc.items()})
        two = make_copy(way, one, rng)
        for part, a, b in (("objdata", one.objdata(), two.objdata()), ("metadata", one.metadata(), two.metadata()), ("ancil", one.ancil or {}, two.ancil or {})):
            for k in b:
                if isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray):
                    ctx.true("shared", not np.shares_memory(a[k], b[k]), "%s: %s[%s] is shared with the copy" % (lab, part, k))
        want = snapshot(two, xs, qs)
        scribble(one, ())
        state_equal(ctx, "copy", snapshot(two, xs, qs), want, "%s: copy, after overwriting the arrays of the original" % lab)
        if case.kind == "quant":
            third = make_copy(way, two, rng)
            names = ["piecewise_linear", "cdf_spline_derivative", "dual_spline_average", "piecewise_constant"]
            new = [n for n in names if n != two.dist.pdf_constructor_name][int(rng.integers(0, 3))]
            try:
                two.dist.pdf_constructor_name = new
                two.pdf(xs)
            except Exception:  # pylint: disable=broad-except
                ctx.ev("constructor rejected")
            state_equal(ctx, "copy", snapshot(third, xs, qs), want, "%s: copy, after the other one switched to %s" % (lab, new))
            # a copy remembers the constructor it was switched to
            src = case.make()
            old = src.dist.pdf_constructor_name
            use = "piecewise_linear" if old != "piecewise_linear" else "piecewise_constant"
            src.dist.pdf_constructor_name = use
            if rng.random() < 0.5:
                src.pdf(xs)
            got = make_copy(way, src, rng)
            ctx.equal("constructor", got.dist.pdf_constructor_name, use, lab)
            state_equal(ctx, "equal", snapshot(got, xs, qs), snapshot(src, xs, qs), "%s: copy of a switched ensemble" % lab)
    ctx.seen(case.label, way, op, anc is not None)
    ctx.ev("copies")


def frozen(ctx):
    """Copies of the frozen distribution"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    xs, qs = probe_points(case, rng)
    way = "deepcopy" if case.variant == "scipy" or rng.random() < 0.5 else "pickle"
    got = copy.deepcopy(ens.frozen) if way == "deepcopy" else pickle.loads(pickle.dumps(ens.frozen))
    lab = "%s: %s of the frozen distribution" % (case.label, way)
    ctx.true("npdf", got.npdf == ens.npdf and np.all(np.atleast_1d(got.shape) == np.atleast_1d(ens.shape)), lab)
    for fun, x in (("pdf", xs), ("cdf", xs), ("sf", xs), ("ppf", qs)):
        ctx.close(fun, getattr(got, fun)(x), getattr(ens, fun)(x), rtol=1e-12, atol=1e-300, msg="%s: %s" % (lab, fun))
    dict_equal(ctx, "objdata", {k: v for k, v in got.dist.objdata.items()}, {k: v for k, v in ens.dist.objdata.items()}, lab)
    dict_equal(ctx, "metadata", got.dist.metadata, ens.dist.metadata, lab)
    # samples of the copy do not depend on those of the original
    a = got.rvs(size=(ens.npdf, 3), random_state=4)
    ens.rvs(size=5, random_state=9)
    b = got.rvs(size=(ens.npdf, 3), random_state=4)
    ctx.equal("rvs", a, b, lab)
    ctx.seen("frozen", case.label, way)


WORKLOADS = [("copies", copies), ("frozen", frozen)]
