"""C14: gridded() and mode() are never stale.

Every call is judged against pdf() of a fresh ensemble built from the model of the history.
"""
import numpy as np

import qp
from common import deep
from gens import GENS, gen_ancil, gen_case
from lib import close_vals
from monitors import random_key


def pick_grid(rng, case, model_npdf, old):
    """A grid, often related to one used before"""
    w = case.width()
    style = int(rng.integers(0, 7))
    if old and style == 0:
        return np.array(old[int(rng.integers(len(old)))]), "the same values again"
    if old and style == 1:
        prev = old[-1]
        return np.sort(rng.uniform(case.lo, case.hi, size=len(prev))), "other values, same length"
    if old and style == 2:
        prev = np.array(old[-1])
        i = int(rng.integers(len(prev)))
        lo, hi = (prev[i - 1] if i else case.lo - w), (prev[i + 1] if i + 1 < len(prev) else case.hi + w)
        prev[i] = 0.5 * (prev[i] + (lo if rng.random() < 0.5 else hi))
        return prev, "one value differs"
    if old and style == 3:
        return np.array(old[-1])[: max(1, len(old[-1]) - 1)], "shorter"
    if old and style == 4:
        return np.array(old[-1]) + 1e-3 * w, "shifted a little"
    num = int(rng.choice([2, 5, model_npdf, 11]))
    if style == 5:
        return np.linspace(case.lo, case.hi, num + 1), "linspace"
    return np.sort(case.points(rng, num)), "random"


def clear_of_knots(grid, knots, w):
    if knots is None:
        return grid
    near = np.min(np.abs(grid[:, None] - knots[None, :]), axis=1) < 1e-6 * w
    return np.where(near, grid + 3.1e-5 * w, grid)


def check(ctx, ens, fresh, case, grid, lab):
    """The results for this grid are current"""
    rng = ctx.rng
    want = fresh.pdf(np.array(grid))
    tolw = case.width()
    order = int(rng.integers(0, 3))
    if order != 1:
        got_grid, got = ens.gridded(grid)
        ctx.true("grid", np.array_equal(got_grid, grid), "%s: gridded() returned another grid" % lab, got=got_grid, want=grid)
        close_vals(ctx, "gridded", got, want, "%s: gridded()" % lab, width=tolw)
    if order != 2:
        mode = ens.mode(grid)
        if ctx.true("mode-shape", np.shape(mode) == (fresh.npdf, 1), "%s: mode() has shape %s, expected %s" % (lab, np.shape(mode), (fresh.npdf, 1))):
            mode = np.asarray(mode)[:, 0]
            where = [np.flatnonzero(np.asarray(grid) == m) for m in mode]
            ok = all(len(w) for w in where)
            ctx.true("mode-grid", ok, "%s: mode() is not a point of the grid" % lab, mode=mode, grid=grid)
            if ok:
                at = np.array([want[i, w].max() for i, w in enumerate(where)])
                best = want.max(axis=1)
                tol = 1e-9 * np.abs(best) + 1e-11 / tolw
                ctx.true("mode", np.all(at >= best - tol), "%s: pdf at mode() is %s, largest is %s" % (lab, at, best))
    ctx.ev("grids")
    return want


def history(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.4 else None
    ens = case.make(ancil=anc)
    rows = np.arange(case.npdf)
    ctor = None
    base = case
    arrays, old = [], []
    for step in range(int(rng.integers(5, 12))):
        ops = ["grid", "grid", "grid", "inplace", "update", "objdata", "append", "slice", "result", "read", "reject"]
        if case.kind == "quant":
            ops += ["switch", "switch"]
        oper = str(rng.choice(ops))
        if oper == "inplace" and arrays:
            # the array of an earlier call, modified in place
            arr = arrays[int(rng.integers(len(arrays)))]
            how = int(rng.integers(0, 3))
            if how == 0:
                arr[:] = np.sort(rng.uniform(base.lo, base.hi, size=len(arr)))
            elif how == 1:
                arr += 0.05 * base.width()
            else:
                arr[:] = arr[::-1].copy()
            arr[:] = clear_of_knots(arr, base.knots, base.width())
        elif oper == "update":
            if base.kind in GENS and rng.random() < 0.5:
                base = GENS[base.kind](rng)
            rows = rng.integers(0, base.npdf, size=int(rng.choice([len(rows), 1, 3])))
            ens.update(base.data(rows))
            ctor = None
        elif oper == "objdata" and base.kind != "quant":
            rows = rng.integers(0, base.npdf, size=len(rows))
            ens.update_objdata({k: np.array(v[rows]) for k, v in base.obj.items()})
        elif oper == "append":
            sel = rng.integers(0, len(rows), size=int(rng.integers(1, 3)))
            if len(rows) < 30:
                ens.append(ens[sel])
                rows = np.concatenate([rows, rows[sel]])
        elif oper == "slice":
            key, sel = random_key(rng, ens.npdf)
            part = ens[key]
            if rng.random() < 0.5:
                ens, rows = part, rows[sel]
            elif arrays:
                part.gridded(arrays[-1])
        elif oper == "result" and arrays:
            # what was returned belongs to the caller
            got_grid, got = ens.gridded(arrays[-1])
            got *= 0.0
            got_grid += 17.0
        elif oper == "read":
            ens.pdf(np.array([base.lo, base.hi]))
            ens.cdf(base.lo)
            if arrays:
                ens.metadata()
                ens.objdata()
        elif oper == "reject":
            other = GENS["interp" if base.kind != "interp" else "hist"](rng).make()
            ctx.raises("reject", (KeyError, ValueError, TypeError), lambda: ens.append(other), "%s: append of another class" % base.label)
            ctx.raises("reject", Exception, lambda: ens.update(base.data(rows), dict(z=np.zeros(len(rows) + 3))), "%s: update with bad ancil" % base.label)
        elif oper == "switch":
            ctor = str(rng.choice(["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]))
            ens.dist.pdf_constructor_name = ctor
        if oper != "inplace" or not arrays:
            grid, what = pick_grid(rng, base, len(rows), old)
            grid = clear_of_knots(grid, base.knots, base.width())
            arrays.append(grid)
        else:
            grid, what = arr, "modified in place"
        ctx.note("step", step, oper, what, len(grid))
        fresh = base.subset(rows).make()
        if ctor is not None:
            fresh.dist.pdf_constructor_name = ctor
        check(ctx, ens, fresh, base, grid, "%s, %s then grid with %s" % (base.label, oper, what))
        old.append(np.array(grid))
        ctx.seen(base.kind, oper, what)


def kinds_of_grid(ctx):
    """Lists, tuples, integers and single points as grids"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens, fresh = case.make(), case.make()
    grid = clear_of_knots(np.linspace(case.lo, case.hi, int(rng.choice([1, 4, case.npdf]))), case.knots, case.width())
    for conv in (list, tuple, np.array, lambda g: np.array(g, dtype="f4"), lambda g: np.asfortranarray(g)):
        this = conv(grid)
        arr = np.asarray(this)
        if arr.dtype == "f4":
            this = arr = clear_of_knots(arr.astype(float), case.knots, case.width())
        check(ctx, ens, fresh, case, this if not isinstance(this, (list, tuple)) else np.array(this), "%s, grid of type %s" % (case.label, type(this).__name__))
    got_grid, got = ens.gridded(list(grid))
    close_vals(ctx, "list", got, fresh.pdf(grid), "%s: gridded() of a list" % case.label, width=case.width())
    ctx.true("list", np.array_equal(got_grid, grid), "%s: gridded() of a list returns %s" % (case.label, type(got_grid)))
    ctx.seen("kind", case.label, len(grid))


WORKLOADS = [("history", history), ("kinds_of_grid", kinds_of_grid)]
