"""C28: binning and interpolation utilities agree with their definitions in every layout."""
import numpy as np
from scipy.interpolate import interp1d
from scipy.stats import gaussian_kde

from gens import half_regular
from qp import utils

LAYOUTS = ["flat", "scrambled", "flattened", "product", "wide", "table", "one", "column"]


def layout(rng, name, npdf, xs):
    """Points and rows in one of the layouts, and the (x, row) pairs they stand for, in order"""
    nx = int(rng.integers(1, 7))
    if name == "flat":
        n = int(rng.choice([1, 2, npdf, 2 * npdf, 6, 9]))
        x, row = xs(n), rng.integers(0, npdf, size=n)
        return x, row, x, row, (n,)
    if name == "scrambled":
        # the pairs of an outer product, but not in its order; or points and rows that repeat differently
        x, row = np.tile(xs(nx), npdf), np.repeat(np.arange(npdf), nx)
        style = int(rng.integers(0, 4))
        if style == 0:
            perm = rng.permutation(x.size)
            x, row = x[perm], row[perm]
        elif style == 1:
            x, row = np.repeat(xs(nx), npdf), np.tile(np.arange(npdf), nx)
        elif style == 2:
            x = np.sort(x)
        else:
            k = int(rng.integers(x.size))
            x[k] = xs(1)[0]
        return x, row, x, row, x.shape
    if name == "flattened":
        rows = rng.permutation(npdf)[: int(rng.integers(1, npdf + 1))]
        pts = xs(nx)
        x, row = np.tile(pts, rows.size), np.repeat(rows, nx)
        return x, row, x, row, None
    rows = rng.permutation(npdf)[: int(rng.integers(1, npdf + 1))] if rng.random() < 0.5 else np.arange(npdf)
    if name == "column" and rng.random() < 0.5:
        rows = rng.integers(0, npdf, size=npdf + 1)
    rr = rows.reshape(-1, 1)
    if name in ("product", "column"):
        pts = xs(nx)
        full = np.tile(pts, (rows.size, 1))
        return pts, rr, full, np.tile(rr, (1, nx)), full.shape
    if name == "wide":
        pts = xs(nx).reshape(1, -1)
        full = np.tile(pts, (rows.size, 1))
        return pts, rr, full, np.tile(rr, (1, nx)), full.shape
    if name == "one":
        x = float(xs(1)[0])
        return x, rr, np.full((rows.size, 1), x), rr, (rows.size, 1)
    table = xs(rows.size * nx).reshape(rows.size, nx)
    return table, rr, table, np.tile(rr, (1, nx)), table.shape


def judge(ctx, key, got, want, shape, lab, rtol=1e-9, scale=None):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if shape is not None and len(shape) == 2 and shape[0] > 1:
        # (a single row may come without its dimension, scipy puts it back)
        ctx.true("shape", got.shape == tuple(shape), "%s: shape %s, expected %s" % (lab, got.shape, shape))
    fin = np.abs(want[np.isfinite(want)])
    top = scale if scale is not None else (fin.max() if fin.size else 1.0)
    ctx.close(key, got.ravel(), want.ravel(), rtol=rtol, atol=1e-11 * top, msg=lab)
    ctx.ev("pairs", want.size)


def make_grid(rng, n, style):
    if style == "dyadic":
        return 2.0 ** rng.integers(-3, 2) * (np.arange(n) + int(rng.integers(-5, 5)))
    if style == "uniform":
        lo, w = rng.normal() * 3, 10.0 ** rng.uniform(-3, 3)
        return np.linspace(lo, lo + w, n)
    if style == "nearly":
        # widths that hardly differ, but many of them: the edges are far from those of equal bins
        steps = np.where(np.arange(n - 1) < (n - 1) // 2, 1.0, 1.0 + float(rng.choice([2e-3, 8e-3, -5e-3])))
        return rng.normal() + 10.0 ** rng.uniform(-3, 3) * np.concatenate([[0.0], np.cumsum(steps)])
    if style == "units":
        # not uniform, in units where all of it is tiny or huge
        steps = rng.uniform(0.2, 1.0, size=n - 1)
        return 10.0 ** float(rng.choice([-11, -9, 7])) * (rng.normal() + np.concatenate([[0.0], np.cumsum(steps)]))
    steps = rng.uniform(0.2, 1.0, size=n - 1) * np.where(rng.random(n - 1) < 0.3, 4.0, 1.0)
    if n > 2:
        steps[0] = 2.7 * steps[1]
    if n > 4:
        steps = half_regular(rng, steps)
    return rng.normal() + 10.0 ** rng.uniform(-3, 3) * np.concatenate([[0.0], np.cumsum(steps)])


def points_for(rng, grids, exact):
    """Points inside, outside and (where they are exact) on the edges"""
    grids = np.atleast_2d(grids)
    lo, hi = grids.min(), grids.max()
    w = hi - lo
    knots = np.unique(grids)

    def xs(n):
        x = rng.uniform(lo - 0.2 * w, hi + 0.2 * w, size=n)
        for _ in range(30):
            near = np.min(np.abs(x[:, None] - knots[None, :]), axis=1) < 1e-8 * w
            if not near.any():
                break
            x = np.where(near, rng.uniform(lo - 0.2 * w, hi + 0.2 * w, size=n), x)
        if exact:
            pick = rng.random(n) < 0.4
            x = np.where(pick, rng.choice(knots, size=n), x)
        if n > 1 and rng.random() < 0.4:
            x[int(rng.integers(n))] = x[int(rng.integers(n))]
        return x

    return xs


def hist_value(edges, vals, derivs, x):
    """The bin of a point: the edge on the left belongs to it, that on the right does not"""
    i = int(np.searchsorted(edges, x, side="right")) - 1
    if i < 0 or i > len(edges) - 2:
        return 0.0
    return vals[i] + (0.0 if derivs is None else (x - edges[i]) * derivs[i])


def hists(ctx):
    rng = ctx.rng
    npdf = int(rng.choice([1, 2, 3, 4, 6]))
    nbins = int(rng.choice([1, 2, npdf, npdf + 1, 5, 9]))
    style = str(rng.choice(["dyadic", "uniform", "irregular", "units", "nearly"], p=[0.25, 0.25, 0.25, 0.15, 0.1]))
    if style == "nearly":
        npdf, nbins = int(rng.choice([1, 2])), int(rng.choice([400, 700]))
    derivs = rng.normal(size=(npdf, nbins)) if rng.random() < 0.4 else None
    vals = rng.normal(size=(npdf, nbins)) * 10.0 ** rng.uniform(-2, 2, size=(npdf, 1))
    edges = make_grid(rng, nbins + 1, style)
    many = np.array([make_grid(rng, nbins + 1, style) for _ in range(npdf)])
    whole = style == "dyadic" and rng.random() < 0.5
    if whole:
        # whole numbers for the values (and what the points are on)
        vals = rng.integers(-50, 50, size=(npdf, nbins))
        edges, many = np.round(8 * edges).astype(int), np.round(8 * many).astype(int)
    for name in LAYOUTS:
        for multi in (False, True):
            grids = many if multi else np.tile(edges, (npdf, 1))
            xs = points_for(rng, grids, style not in ("uniform", "units"))
            x, row, fx, fr, shape = layout(rng, name, npdf, xs)
            func = utils.evaluate_hist_multi_x_multi_y if multi else utils.evaluate_hist_x_multi_y
            args = (x, row, many if multi else edges, vals)
            got = func(*args) if derivs is None and rng.random() < 0.5 else func(*args, derivs)
            want = np.array([hist_value(grids[r], vals[r], None if derivs is None else derivs[r], v) for v, r in zip(np.ravel(fx), np.ravel(fr))])
            scale = np.max(np.abs(vals)) + (0.0 if derivs is None else np.max(np.abs(derivs)) * np.ptp(grids))
            judge(ctx, "hist", got, want, shape, "%s, %s, %s bins, derivatives %s" % (func.__name__, name, style, derivs is not None), scale=scale)
            ctx.seen(func.__name__, name, style, "n1" if npdf == 1 else "n", "bins%i" % min(nbins, 3), derivs is not None, whole)


def interps(ctx):
    rng = ctx.rng
    npdf = int(rng.choice([1, 2, 3, 4, 6]))
    num = max(int(rng.choice([npdf, npdf + 1, 4, 9])), 4)
    style = str(rng.choice(["dyadic", "uniform", "irregular"]))
    grid = make_grid(rng, num, style)
    many = np.array([make_grid(rng, num, style) for _ in range(npdf)])
    vals = rng.normal(size=(npdf, num)) * 10.0 ** rng.uniform(-2, 2, size=(npdf, 1))
    common = np.cumsum(rng.random(num))
    whole = style == "dyadic" and rng.random() < 0.5
    if whole:
        vals, common = rng.integers(-50, 50, size=(npdf, num)), np.arange(num) * 2 + 1
        grid, many = np.round(8 * grid).astype(int), np.round(8 * many).astype(int)
    fill = [(0.0, 0.0), (0.0, 1.0), (-3.0, 7.0)][int(rng.integers(3))]
    kind = "quadratic" if rng.random() < 0.2 else "linear"
    kwds = dict(bounds_error=False, fill_value=fill if fill[0] != fill[1] else fill[0])
    if kind != "linear":
        kwds["kind"] = kind
    for name in LAYOUTS:
        for which in range(3):
            func = [utils.interpolate_x_multi_y, utils.interpolate_multi_x_multi_y, utils.interpolate_multi_x_y][which]
            gx = np.tile(grid, (npdf, 1)) if which == 0 else many
            gy = vals if which < 2 else np.tile(common, (npdf, 1))
            xs = points_for(rng, gx, True)
            x, row, fx, fr, shape = layout(rng, name, npdf, xs)
            got = func(x, row, grid if which == 0 else many, vals if which < 2 else common, **kwds)
            want = []
            for v, r in zip(np.ravel(fx), np.ravel(fr)):
                if v < gx[r][0]:
                    want.append(fill[0])
                elif v > gx[r][-1]:
                    want.append(fill[1])
                elif kind == "linear":
                    want.append(np.interp(v, gx[r], gy[r]))
                else:
                    want.append(float(interp1d(gx[r], gy[r], kind=kind)(v)))
            judge(ctx, "interpolate", got, want, shape, "%s, %s, %s grid, %s" % (func.__name__, name, style, kind), scale=np.max(np.abs(gy)) * 10 + 10)
            ctx.seen(func.__name__, name, style, "n1" if npdf == 1 else "n", kind, fill, whole)


def indices(ctx):
    """Bins of points"""
    rng = ctx.rng
    for _ in range(4):
        style = str(rng.choice(["dyadic", "uniform", "irregular", "units", "nearly"]))
        nbins = int(rng.choice([1, 2, 3, 7, 20])) if style != "nearly" else int(rng.choice([300, 1000]))
        edges = make_grid(rng, nbins + 1, style)
        xs = points_for(rng, edges, style not in ("uniform", "units"))
        shape = [(), (5,), (1,), (2, 3), (4, 1)][int(rng.integers(5))]
        x = xs(int(np.prod(shape)) if shape else 1).reshape(shape)
        x = float(x) if shape == () and rng.random() < 0.5 else x
        idx, mask = utils.get_bin_indices(edges, x)
        lab = "get_bin_indices of %s points in %i %s bins" % (shape, nbins, style)
        if not ctx.true("shape", np.shape(idx) == shape and np.shape(mask) == shape, "%s: shapes %s %s" % (lab, np.shape(idx), np.shape(mask))):
            continue
        want = np.searchsorted(edges, x, side="right") - 1
        inside = (want >= 0) & (want < nbins)
        ctx.true("mask", np.array_equal(np.asarray(mask, bool), inside), "%s: mask %s, expected %s" % (lab, mask, inside))
        ctx.true("index", np.all(np.where(inside, idx == want, True)), "%s: bins %s, expected %s" % (lab, idx, want))
        ctx.true("range", np.all((idx >= 0) & (idx < nbins)), "%s: bins %s" % (lab, idx))
        ctx.seen("indices", style, shape, min(nbins, 3))


def profiles(ctx):
    rng = ctx.rng
    nbins, num = int(rng.choice([1, 2, 5, 10])), int(rng.choice([1, 5, 30, 300, 12000]))
    style = str(rng.choice(["dyadic", "uniform", "irregular"]))
    edges = make_grid(rng, nbins + 1, style)
    x = points_for(rng, edges, style != "uniform")(num)
    y = rng.normal(size=num) * 10.0 ** rng.uniform(-2, 2) + rng.normal()
    if rng.random() < 0.2:
        x = np.where(x < edges[nbins // 2 + 1], x, edges[0] + 0.3 * (edges[1] - edges[0]))
    whole = rng.random() < 0.4
    if whole:
        # whole numbers for the values, and sometimes for the points and the edges
        y = np.round(y * (20.0 / max(np.max(np.abs(y)), 1e-9))).astype(str(rng.choice(["int64", "int32", "int16"])))
        if rng.random() < 0.5:
            edges = (np.arange(nbins + 1) * int(rng.integers(1, 4)) - 2).astype(int if rng.random() < 0.5 else float)
            x = rng.integers(-4, int(edges[-1]) + 3, size=num)
    where = np.searchsorted(edges, x, side="right") - 1
    means, stds, errs = [], [], []
    for i in range(nbins):
        here = y[where == i]
        means.append(np.mean(here) if here.size else np.nan)
        stds.append(np.sqrt(np.mean((here - np.mean(here)) ** 2)) if here.size else np.nan)
        errs.append(stds[-1] / np.sqrt(here.size) if here.size else np.nan)
    lab = "profile of %i %s points in %i %s bins" % (num, "integer" if whole else "real", nbins, style)
    tol = 1e-10 * np.max(np.abs(y))
    got = utils.profile(x, y, edges)
    ctx.close("means", got[0], means, rtol=1e-9, atol=tol, msg=lab + ": means")
    ctx.close("stds", got[1], stds, rtol=1e-6, atol=1e-7 * np.max(np.abs(y)), msg=lab + ": standard deviations")
    got = utils.profile(x, y, edges, std=False)
    ctx.close("means", got[0], means, rtol=1e-9, atol=tol, msg=lab + ": means")
    ctx.close("errors", got[1], errs, rtol=1e-6, atol=1e-7 * np.max(np.abs(y)), msg=lab + ": errors on the means")
    perm = rng.permutation(num)
    got = utils.profile(x[perm], y[perm], edges, std=True)
    ctx.close("order", got[0], means, rtol=1e-9, atol=tol, msg=lab + ": means in another order")
    ctx.seen("profile", style, nbins, num, whole)


def small(ctx):
    """The small helpers"""
    rng = ctx.rng
    num, npdf = int(rng.integers(2, 12)), int(rng.integers(1, 6))
    edges = make_grid(rng, num + 1, str(rng.choice(["dyadic", "uniform", "irregular"])))
    ctx.close("centers", utils.edge_to_center(edges), [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])], rtol=1e-12, atol=0, msg="edge_to_center")
    ctx.close("widths", utils.bin_widths(edges), [b - a for a, b in zip(edges[:-1], edges[1:])], rtol=1e-12, atol=0, msg="bin_widths")
    xs = np.array([make_grid(rng, num, "irregular") for _ in range(npdf)])
    ys = rng.gamma(1.0, size=(npdf, num)) * 10.0 ** rng.uniform(-3, 3, size=(npdf, 1)) + 1e-9
    got = utils.normalize_interp1d(xs, ys)
    for i in range(npdf):
        area = sum(0.5 * (xs[i, j + 1] - xs[i, j]) * (ys[i, j] + ys[i, j + 1]) for j in range(num - 1))
        ctx.close("normalize", got[i], ys[i] / area, rtol=1e-9, atol=0, msg="normalize_interp1d, row %i" % i)
    arr = rng.normal(size=(num, npdf)) * 10.0 ** rng.uniform(-300, 10, size=(num, npdf))
    eps = np.finfo(float).eps
    ctx.close("safelog", utils.safelog(arr), np.log(np.where(arr < eps, eps, arr)), rtol=1e-12, atol=0, msg="safelog")
    thr = 10.0 ** rng.uniform(-6, 2)
    ctx.close("safelog", utils.safelog(arr, threshold=thr), np.log(np.where(arr < thr, thr, arr)), rtol=1e-12, atol=1e-14, msg="safelog")
    shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3))))
    per = int(rng.integers(1, 5))
    vals = np.arange(np.prod(shape) * per).reshape(shape + (per,))
    flat = utils.reshape_to_pdf_size(vals, -1)
    ctx.equal("reshape", flat, vals.reshape(-1, per), "reshape_to_pdf_size")
    ctx.equal("reshape", utils.reshape_to_pdf_shape(flat, shape, per), vals, "reshape_to_pdf_shape")
    samples = rng.normal(size=(npdf, 40)) * rng.uniform(0.1, 10, size=(npdf, 1))
    kdes = utils.build_kdes(samples)
    grid = rng.normal(size=7)
    got = utils.evaluate_kdes(grid, kdes)
    ctx.close("kde", got, [gaussian_kde(row)(grid) for row in samples], rtol=1e-9, atol=1e-300, msg="evaluate_kdes")
    ctx.seen("small", npdf, len(shape))


WORKLOADS = [("hists", hists), ("interps", interps), ("indices", indices), ("profiles", profiles), ("small", small)]
