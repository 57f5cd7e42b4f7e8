"""C01: vectorised evaluation equals evaluating each PDF alone at each point."""
import numpy as np

from gens import ALL_KINDS, gen_case, too_slow
from lib import eval_tol
from monitors import session

METHODS_X = ["pdf", "cdf", "sf", "logpdf", "logcdf", "logsf"]
METHODS_Q = ["ppf", "isf"]
LAYOUTS = ["scalar", "one", "flat", "npdf", "mult", "sorted", "descending", "constant", "column", "full", "row2d", "repeat2d", "tile2d", "dup", "perm2d"]


def make_layout(rng, layout, npdf, draw):
    """An array of points in one of the layouts"""
    if layout == "scalar":
        return float(draw(1)[0])
    if layout == "one":
        return draw(1)
    if layout == "flat":
        return draw(int(rng.integers(2, 9)))
    if layout == "npdf":
        return draw(npdf)
    if layout == "mult":
        return draw(npdf * int(rng.integers(1, 4 if npdf < 100 else 2)))
    if layout == "sorted":
        return np.sort(draw(int(rng.integers(2, 9))))
    if layout == "descending":
        return np.sort(draw(int(rng.integers(2, 9))))[::-1]
    if layout == "constant":
        return np.full(int(rng.integers(2, 6)), draw(1)[0])
    if layout == "dup":
        x = draw(3)
        return np.concatenate([x, x[::-1], x])
    if layout == "column":
        return draw(npdf).reshape(npdf, 1)
    m = int(rng.choice([2, 3, npdf, npdf + 1] if npdf < 100 else [2, 3]))
    if layout == "full":
        return draw(npdf * m).reshape(npdf, m)
    if layout == "row2d":
        return draw(m).reshape(1, m)
    if layout == "repeat2d":
        return np.repeat(draw(npdf).reshape(npdf, 1), m, axis=1)
    if layout == "tile2d":
        x = np.tile(draw(m), (npdf, 1))
        if rng.random() < 0.5 and npdf > 1:
            x[-1, -1] = draw(1)[0]
        return x
    if layout == "perm2d":
        x = draw(m)
        return np.array([rng.permutation(x) for _ in range(npdf)])
    raise KeyError(layout)


def comparable(method, vals):
    """Logs are compared as the values they are logs of"""
    return np.exp(vals) if method.startswith("log") else np.asarray(vals, float)


def layout(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make()
    slow = case.kind == "spline"
    singles = {}
    todo = [(m, l) for m in METHODS_X + METHODS_Q for l in LAYOUTS]
    pick = rng.choice(len(todo), size=8 if slow or case.npdf > 100 else 14, replace=False)
    special = rng.random() < 0.15
    n_ppf = 0
    for ipick in pick:
        method, lay = todo[ipick]
        if method in METHODS_Q:
            n_ppf += 1
            if slow and n_ppf > 2:
                continue

            def draw(n):
                return rng.uniform(0.01, 0.99, size=n)
        else:

            def draw(n):
                x = case.points(rng, n, on_knots=False)
                if special:
                    x = np.where(rng.random(n) < 0.1, rng.choice([np.inf, -np.inf, np.nan]), x)
                return x

        x = make_layout(rng, lay, case.npdf, draw)
        if too_slow(case, method, np.shape(x)[-1] if np.ndim(x) else 1):
            continue
        out = getattr(ens, method)(x)
        want_shape = np.broadcast_shapes(np.shape(x) if np.ndim(x) else (1,), (case.npdf, 1))
        ctx.ev("evaluations")
        if not ctx.true("shape", np.shape(out) == want_shape,
                        "%s %s(%s array): shape %s, expected %s" % (case.label, method, lay, np.shape(out), want_shape)):
            continue
        full_x = np.broadcast_to(np.asarray(x, float), want_shape)
        cells = [(i, j) for i in range(want_shape[0]) for j in range(want_shape[1])]
        limit = 6 if slow and method in METHODS_Q else 24
        if len(cells) > limit:
            cells = [cells[k] for k in rng.choice(len(cells), size=limit, replace=False)]
        got, want = [], []
        for i, j in cells:
            grid = case.kind == "mixmod" and method in METHODS_Q
            if grid:
                # the inversion grid belongs to the ensemble, so evaluate the same ensemble at one point
                val = np.asarray(getattr(ens, method)(float(full_x[i, j])))[i, 0]
            else:
                if i not in singles:
                    singles[i] = case.single(i)
                val = np.asarray(getattr(singles[i], method)(float(full_x[i, j]))).ravel()[0]
            got.append(out[i, j])
            want.append(val)
            if grid:
                if i not in singles:
                    singles[i] = case.single(i)
                alone = np.asarray(getattr(singles[i], method)(float(full_x[i, j]))).ravel()[0]
                ctx.true("mixmod-grid", abs(alone - val) <= 2.5 * case.ref.step(),
                         "%s %s: row %i at %r gives %r, alone %r" % (case.label, method, i, full_x[i, j], val, alone))
        got, want = comparable(method, np.array(got)), comparable(method, np.array(want))
        atol = 1e-12 if method.startswith("log") or method in ("sf", "cdf") else eval_tol(want, case.width())
        if case.kind == "spline" and method in METHODS_Q:
            atol = 1e-7 * case.width()
        ctx.ev("cells", len(cells))
        ctx.seen(case.label, method, lay, "n1" if case.npdf == 1 else "n")
        ctx.close("value", got, want, rtol=1e-8, atol=atol, msg="%s %s(%s array of shape %s), npdf %i, cells %s" % (case.label, method, lay, np.shape(x), case.npdf, cells[:8]), x=x)


ROW_LAYOUTS = ["column", "pairs", "one-point", "table", "one-row"]


def rows(ctx):
    """PDFs picked by their row number, as gen_obj.pdf(x, row) does, in any order and with repetitions"""
    rng = ctx.rng
    case = gen_case(ctx, kinds=[k for k in ALL_KINDS if k != "scipy"])
    ens = case.make()
    slow = case.kind == "spline"
    singles = {}
    for method in rng.choice(METHODS_X + ["ppf"], size=3 if slow else 4, replace=False):
        lay = str(rng.choice(ROW_LAYOUTS))
        nrow = int(rng.integers(1, case.npdf + 2))
        row = rng.integers(0, case.npdf, size=nrow)
        if rng.random() < 0.3:
            row = np.arange(case.npdf)[::-1]
        m = int(rng.choice([1, 2, 3, len(row), len(row) + 1] if case.npdf < 100 else [1, 2, 3]))

        def draw(n):
            return rng.uniform(0.01, 0.99, size=n) if method == "ppf" else case.points(rng, n, on_knots=False)

        if lay == "column":
            x, row = draw(m), row.reshape(-1, 1)
        elif lay == "pairs":
            x = draw(len(row))
        elif lay == "one-point":
            x, row = float(draw(1)[0]), row.reshape(-1, 1)
        elif lay == "table":
            x, row = draw(m * len(row)).reshape(len(row), m), row.reshape(-1, 1)
        else:
            x, row = draw(m), int(row[0])
        got = np.asarray(getattr(ens.dist, method)(x, row))
        want_shape = np.broadcast_shapes(np.shape(x), np.shape(row))
        ctx.ev("row-selections")
        ctx.seen(case.label, method, lay, "rows")
        if not ctx.true("rows-size", got.size == int(np.prod(want_shape)),
                        "%s %s(x of shape %s, row of shape %s): %s" % (case.label, method, np.shape(x), np.shape(row), got.shape)):
            continue
        got = got.reshape(-1)
        xx = np.broadcast_to(x, want_shape).reshape(-1)
        rr = np.broadcast_to(row, want_shape).reshape(-1)
        keep = np.arange(len(xx))
        limit = 4 if slow and method == "ppf" else 16
        if len(keep) > limit:
            keep = rng.choice(len(keep), size=limit, replace=False)
        want = []
        for k in keep:
            i = int(rr[k])
            if case.kind == "mixmod" and method == "ppf":
                want.append(np.asarray(ens.ppf(float(xx[k])))[i, 0])
                continue
            if i not in singles:
                singles[i] = case.single(i)
            want.append(np.asarray(getattr(singles[i], method)(float(xx[k]))).ravel()[0])
        got, want = comparable(method, got[keep]), comparable(method, np.array(want))
        atol = 1e-12 if method.startswith("log") or method in ("sf", "cdf") else eval_tol(want, case.width())
        if slow and method == "ppf":
            atol = 1e-7 * case.width()
        ctx.ev("cells", len(keep))
        ctx.close("rows", got, want, rtol=1e-8, atol=atol, msg="%s %s of rows %s (%s)" % (case.label, method, rr[keep], lay), x=x, row=row)


def session_case(ctx):
    session(ctx, judge=("eval",))


WORKLOADS = [("layout", layout), ("rows", rows), ("session", session_case)]
