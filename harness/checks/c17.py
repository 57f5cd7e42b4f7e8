"""C17: sparse coding: codec, greedy search, independence of the PDFs, reconstruction."""
import numpy as np

import qp
from gens import RefInterp, gen_mixmod, gen_sparse, ref_basis, voigt_profile
from lib import close_vals
from qp import sparse_rep
from qp.conversion_funcs import extract_voigt_mixmod, extract_voigt_xy, extract_voigt_xy_sparse, extract_xy_sparse


def codec(ctx):
    """combine_int and get_N are inverse"""
    rng = ctx.rng
    chunk = 64
    if ctx.tier == "thorough":
        # all coefficients against all indices, spread over the cases
        coef = np.arange(-32768, 32768)[ctx.index % chunk :: chunk]
        base = np.concatenate([np.arange(ctx.index // chunk, 65536, 16)])
    else:
        coef = np.unique(np.concatenate([[-32768, -32767, -1, 0, 1, 32000, 32001, 32767], rng.integers(-32768, 32768, size=400)]))
        base = np.unique(np.concatenate([[0, 1, 255, 256, 32767, 32768, 40000, 65534, 65535], rng.integers(0, 65536, size=400)]))
    for dtype in ("i8", "i4"):
        c, b = np.meshgrid(coef.astype(dtype), base.astype(dtype), indexing="ij")
        code = sparse_rep.combine_int(c, b)
        c2, b2 = sparse_rep.get_N(code)
        ctx.true("codec", np.array_equal(c, c2) and np.array_equal(b, b2), "codec (%s): (coefficient, index) are not given back" % dtype)
        ctx.true("32bit", code.min() >= -(2**31) and code.max() < 2**31, "codec (%s): more than 32 bits" % dtype)
        ctx.ev("codes", code.size)
    for _ in range(20):
        one, idx = int(rng.integers(-32768, 32768)), int(rng.integers(0, 65536))
        ctx.true("scalar", tuple(sparse_rep.get_N(sparse_rep.combine_int(one, idx))) == (one, idx), "codec: %s" % ((one, idx),))
    # rows of codes
    npdf, nsp = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    c, b = rng.integers(-32000, 32001, size=(npdf, nsp)), rng.integers(0, 65536, size=(npdf, nsp))
    c[:, 0] = rng.integers(1, 40000, size=npdf)
    code = (c << 16) | b
    given = code.copy()
    ind, wts = sparse_rep.decode_sparse_indices(code)
    want = c / 32000.0
    want[:, 0] = 1.0
    ctx.equal("decode", ind, b, "decode_sparse_indices: indices")
    ctx.close("decode", wts, want, rtol=1e-12, atol=0, msg="decode_sparse_indices: weights")
    ctx.true("input", np.array_equal(code, given), "decode_sparse_indices modified its input")
    # the shapes of the elements
    dims = [int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), 32001, nsp]
    mu, sig = np.sort(rng.normal(size=2)), np.sort(rng.uniform(0.1, 1, size=2))
    code = (c << 16) | (b % (dims[0] * dims[1] * dims[2]))
    w, m, s, g = sparse_rep.indices2shapes(code, dict(dims=dims, mu=mu, sig=sig))
    num = np.arange(dims[0] * dims[1] * dims[2]).reshape(dims[:3])
    pos = np.array([[np.argwhere(num == v)[0] for v in row] for row in b % num.size])
    ctx.close("shapes", w, want, rtol=1e-12, atol=0, msg="indices2shapes: weights")
    for name, got, grid, col in (("means", m, np.linspace(mu[0], mu[1], dims[0]), 0), ("sigmas", s, np.linspace(sig[0], sig[1], dims[1]), 1), ("gammas", g, np.linspace(0, 0.5, dims[2]), 2)):
        ctx.close("shapes", got, grid[pos[:, :, col]], rtol=1e-12, atol=1e-15, msg="indices2shapes with dims %s: %s" % (dims, name))
    ctx.seen("codec", npdf, nsp, tuple(dims))


def dictionary(rng):
    """A dictionary with elements that can be told apart"""
    n = int(rng.choice([25, 41, 60]))
    lo, w = rng.uniform(-1, 1), rng.uniform(1.5, 5)
    x = np.linspace(lo, lo + w, n)
    nmu, nsig, nv = int(rng.choice([1, 2, 5, 8, n])), int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3]))
    mu = [lo + 0.1 * w, lo + 0.9 * w]
    sig = [w / 20.0, w / 8.0]
    return x, mu, nmu, sig, nsig, nv


def basis(ctx):
    """The dictionary is what is documented"""
    rng = ctx.rng
    x, mu, nmu, sig, nsig, nv = dictionary(rng)
    cut = float(rng.choice([1e-5, 1e-3]))
    got = sparse_rep.create_voigt_basis(x, mu, nmu, sig, nsig, nv, cut=cut)
    want = ref_basis(x, mu, nmu, sig, nsig, nv, cut)
    ctx.close("basis", got, want, rtol=1e-10, atol=1e-13, msg="create_voigt_basis %s" % ((nmu, nsig, nv),))
    ctx.close("norm", np.sum(got**2, axis=0), np.ones(got.shape[1]), rtol=1e-12, msg="norm of the elements")
    meta = dict(xvals=x, mu=mu, sig=sig, dims=[nmu, nsig, nv, 32001, 3])
    ctx.close("create_basis", sparse_rep.create_basis(meta, cut=cut), want, rtol=1e-10, atol=1e-13, msg="create_basis %s" % ((nmu, nsig, nv),))
    ctx.seen("basis", nmu, nsig, nv, cut)


def targets(rng, x, mat, npdf):
    """Non-negative vectors to code: made of elements, close to it, and others"""
    out = []
    for _ in range(npdf):
        style = rng.integers(0, 4)
        if style < 2:
            k = min(int(rng.integers(1, 4)), mat.shape[1])
            y = mat[:, rng.permutation(mat.shape[1])[:k]] @ rng.uniform(0.2, 1.0, size=k)
        else:
            w = x[-1] - x[0]
            y = np.exp(-0.5 * ((x - x[0] - w * rng.uniform(0.2, 0.8)) / (w * rng.uniform(0.05, 0.2))) ** 2)
        if style in (1, 3):
            y = y + 0.02 * rng.random(len(x)) * y.max()
        out.append(y * 10.0 ** rng.uniform(-1, 1))
    return np.array(out)


def search(ctx):
    """The greedy search, step by step"""
    rng = ctx.rng
    x, mu, nmu, sig, nsig, nv = dictionary(rng)
    mat = ref_basis(x, mu, nmu, sig, nsig, nv)
    live = mat.copy()
    nmax = min(int(rng.choice([1, 2, 5, 12])), mat.shape[1])
    tol = None if rng.random() < 0.4 else float(rng.choice([1e-10, 1e-6, 1e-3]))
    for itry, y in enumerate(targets(rng, x, mat, 4)):
        given = y.copy()
        idx, val = sparse_rep.sparse_basis(live, y, nmax, tolerance=tol)
        idx, val = np.asarray(idx), np.asarray(val)
        lab = "search %i of dictionary %s, n %i, tolerance %s" % (itry, (nmu, nsig, nv), nmax, tol)
        ctx.true("input", np.array_equal(y, given), "%s: modified the vector" % lab)
        ctx.true("dictionary", np.array_equal(live, mat), "%s: the dictionary changed" % lab)
        if len(idx) == 0 and len(val) == 0:
            ctx.true("nothing", np.max((mat.T @ y) ** 2) < 1e-15, "%s: found nothing" % lab)
            continue
        if not ctx.true("size", idx.shape == val.shape and 1 <= len(idx) <= nmax and len(np.unique(idx)) == len(idx), "%s: indices %s" % (lab, idx)):
            continue
        top = np.linalg.norm(y)
        for k in range(len(idx)):
            sub = mat[:, idx[:k]]
            coef = np.linalg.lstsq(sub, y, rcond=None)[0] if k else np.zeros(0)
            res = y - sub @ coef
            corr = np.abs(mat.T @ res)
            ctx.true("greedy", corr[idx[k]] >= corr.max() * (1 - 1e-6) - 1e-7 * top, "%s: element %i is not the best one (%g < %g)" % (lab, k, corr[idx[k]], corr.max()))
            if tol is not None and k:
                ctx.true("tolerance", np.sum(res**2) > tol * (1 - 1e-6) - 1e-12 * top**2, "%s: went on below the tolerance" % lab)
        sub = mat[:, idx]
        cond = np.linalg.cond(sub)
        best = np.linalg.lstsq(sub, y, rcond=None)[0]
        if cond < 1e5:
            ctx.close("coefficients", val, best, rtol=1e-6, atol=1e-9 * top * cond, msg="%s: coefficients" % lab)
        res = np.linalg.norm(y - sub @ val)
        ctx.true("residual", res <= np.linalg.norm(y - sub @ best) * (1 + 1e-4) + 1e-6 * top, "%s: residual %g" % (lab, res))
        if tol is not None and len(idx) < nmax:
            corr = np.abs(mat.T @ (y - sub @ best))
            lam = np.argmax(corr)
            # the search also ends when the next element has nothing in common with the vector
            ctx.true("stop", res**2 <= tol * (1 + 1e-6) or corr[lam] <= 1e-6 * top or abs(mat[:, lam] @ y) < 2e-8, "%s: stopped with a residual of %g" % (lab, res))
        ctx.ev("searches")
    ctx.seen("search", nmu, nsig, nv, nmax, tol)


def represent(ctx):
    """Each PDF is coded independently, and accurately"""
    rng = ctx.rng
    x, mu, nmu, sig, nsig, nv = dictionary(rng)
    mat = ref_basis(x, mu, nmu, sig, nsig, nv)
    nsp = min(int(rng.choice([1, 3, 6])), mat.shape[1])
    npdf = int(rng.choice([1, 2, 4, 6]))
    ys = targets(rng, x, mat, npdf)
    given = ys.copy()
    kwds = dict(mu=mu, Nmu=nmu, sig=sig, Nsig=nsig, Nv=nv, Nsparse=nsp, verbose=False)
    if rng.random() < 0.3:
        kwds["tol"] = float(rng.choice([1e-10, 1e-4]))
    codes, meta, out = sparse_rep.build_sparse_representation(x, ys, **kwds)
    lab = "dictionary %s, %i elements" % ((nmu, nsig, nv), nsp)
    ctx.true("input", np.array_equal(ys, given), "%s: modified the PDFs" % lab)
    ctx.true("shape", codes.shape == (npdf, nsp), "%s: shape %s" % (lab, codes.shape))
    ctx.close("dictionary", out, mat, rtol=1e-10, atol=1e-13, msg="%s: returned dictionary" % lab)
    ctx.equal("meta", np.asarray(meta["dims"]), np.array([nmu, nsig, nv, 32001, nsp]), "%s: dims" % lab)
    ctx.close("meta", meta["mu"], mu, msg="%s: mu" % lab)
    ctx.close("meta", meta["sig"], sig, msg="%s: sig" % lab)
    ctx.close("meta", meta["xvals"], x, msg="%s: xvals" % lab)
    # alone, in another order, and some of them
    for i in range(npdf):
        one, _, _ = sparse_rep.build_sparse_representation(x, ys[[i]], **kwds)
        ctx.equal("alone", codes[[i]], one, "%s: PDF %i of %i is coded differently alone" % (lab, i, npdf))
    perm = rng.permutation(npdf)
    other, _, _ = sparse_rep.build_sparse_representation(x, ys[perm], **kwds)
    ctx.equal("order", other, codes[perm], "%s: coding depends on the order of the PDFs" % lab)
    twice, _, _ = sparse_rep.build_sparse_representation(x, np.concatenate([ys, ys]), **kwds)
    ctx.equal("repeat", twice, np.concatenate([codes, codes]), "%s: repeated PDFs are coded differently" % lab)
    # what the codes mean
    ind, wts = sparse_rep.decode_sparse_indices(codes)
    ctx.true("range", ind.min() >= 0 and ind.max() < mat.shape[1], "%s: elements that are not in the dictionary" % lab)
    vals = np.einsum("xis,is->ix", mat[:, ind], wts)
    for i in range(npdf):
        idx, val = sparse_rep.sparse_basis(out.copy(), ys[i], nsp, tolerance=kwds.get("tol", 1e-10))
        if len(idx) == 0:
            ctx.true("nothing", np.all(codes[i] == 0), "%s: PDF %i has nothing in common with the dictionary, coded as %s" % (lab, i, codes[i]))
            continue
        best = mat[:, idx] @ val / np.max(val)
        slack = np.sum(np.abs(mat[:, idx]), axis=1) * 0.501 / 32000.0
        ctx.true("weights", np.all(np.abs(vals[i] - best) <= slack + 1e-12), "%s: PDF %i is not the one that was found, off by %g" % (lab, i, np.max(np.abs(vals[i] - best))))
        ctx.true("largest", ind[i, 0] == idx[np.argmax(val)], "%s: PDF %i: the first element is not the largest" % (lab, i))
    # and the ensemble made of them
    ens = qp.Ensemble(qp.sparse, data=dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=codes))
    ok = np.all(vals >= 0, axis=1)
    if np.all(ok):
        want = RefInterp([x] * npdf, vals)
        close_vals(ctx, "ensemble", ens.pdf(x), np.array([want.pdf(i, x) for i in range(npdf)]), "%s: pdf of the ensemble" % lab, rtol=1e-7, width=1.0)
        cut = sparse_rep.pdf_from_sparse(codes, out.copy(), x)
        area = np.array([np.sum(0.5 * np.diff(x) * (v[1:] + v[:-1])) for v in vals])
        ctx.close("pdf_from_sparse", cut.T if cut.shape != (npdf, len(x)) else cut, (vals.T / area).T, rtol=1e-4, atol=5e-4, msg="%s: pdf_from_sparse" % lab)
        w, m, s, g = sparse_rep.indices2shapes(codes, meta)
        i = int(rng.integers(npdf))
        one = sparse_rep.shapes2pdf(w[i], m[i], s[i], g[i], meta)
        ctx.close("shapes2pdf", one, vals[i] / area[i], rtol=1e-4, atol=5e-4, msg="%s: shapes2pdf of PDF %i" % (lab, i))
    ctx.ev("coded", npdf)
    ctx.seen("represent", nmu, nsig, nv, nsp, npdf)


def accurate(ctx):
    """PDFs made of well separated elements come back"""
    rng = ctx.rng
    n = int(rng.choice([61, 101]))
    w = rng.uniform(1.5, 5)
    x = np.linspace(0, w, n)
    nmu = int(rng.choice([4, 5]))
    mu, sig, nsig = [0.15 * w, 0.85 * w], [w / 50.0, w / 45.0], 1
    mat = ref_basis(x, mu, nmu, sig, nsig, 1)
    npdf = int(rng.integers(1, 6))
    ys = []
    for _ in range(npdf):
        k = int(rng.integers(1, nmu + 1))
        y = mat[:, rng.permutation(nmu)[:k]] @ rng.uniform(0.05, 1.0, size=k)
        ys.append(y / np.sum(0.5 * np.diff(x) * (y[1:] + y[:-1])))
    codes, meta, _ = sparse_rep.build_sparse_representation(x, np.array(ys), mu=mu, Nmu=nmu, sig=sig, Nsig=nsig, Nv=1, Nsparse=nmu, verbose=False)
    data = dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=codes)
    got = qp.Ensemble(qp.sparse, data=data).pdf(x)
    ctx.close("accurate", got, ys, rtol=1e-3, atol=2e-3 * np.max(ys), msg="%i PDFs made of up to %i elements" % (npdf, nmu))
    ctx.seen("accurate", n, nmu, npdf)


def defaults(ctx):
    """The parameters that are not given, and the conversion from interp"""
    rng = ctx.rng
    w = rng.uniform(2, 4)
    lo = rng.uniform(0, 1)
    x = np.linspace(lo, lo + w, int(rng.choice([41, 61])))
    npdf = int(rng.integers(1, 4))
    cen = lo + w * rng.uniform(0.35, 0.65, size=(npdf, 1))
    wid = w * rng.uniform(0.05, 0.08, size=(npdf, 1))
    ys = np.exp(-0.5 * ((x - cen) / wid) ** 2) / (np.sqrt(2 * np.pi) * wid)
    style = int(rng.integers(0, 3))
    kwds = [dict(), dict(sig=[w / 100.0, w / 12.0]), dict(mu=[lo + 0.2 * w, lo + 0.8 * w], Nmu=20)][style]
    codes, meta, _ = sparse_rep.build_sparse_representation(x, ys, verbose=False, **kwds)
    dx = x[1] - x[0]
    sig = kwds.get("sig", [dx / 6.0, w / 12.0])
    mu = kwds.get("mu", [x[0], x[-1]])
    ctx.close("sig", meta["sig"], sig, rtol=1e-9, msg="default range of widths (%s)" % list(kwds))
    ctx.close("mu", meta["mu"], mu, rtol=1e-9, atol=1e-9, msg="default range of means (%s)" % list(kwds))
    ctx.true("dims", list(meta["dims"])[0] == kwds.get("Nmu", len(x)) and list(meta["dims"])[2:] == [3, 32001, 20] and abs(list(meta["dims"])[1] - 2 * (sig[1] - sig[0]) / dx) <= 1.0001, "default dimensions %s (%s)" % (meta["dims"], list(kwds)))
    data = dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=codes)
    got = qp.Ensemble(qp.sparse, data=data).pdf(x)
    ctx.close("accurate", got, ys, rtol=0, atol=0.03 * np.max(ys), msg="gaussians, %s given" % list(kwds))
    # the conversion
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=ys))
    conv = qp.convert(ens, "sparse", nvals=51)
    ctx.true("converted", conv.npdf == npdf and conv.gen_class.name == "sparse", "conversion to sparse: %s" % conv.npdf)
    grid = np.asarray(conv.metadata()["xvals"])[0]
    grid = grid[grid <= x[-1]]
    want = np.array([np.interp(grid, x, y) for y in ys])
    ctx.close("converted", conv.pdf(grid), want, rtol=0, atol=0.05 * np.max(ys), msg="conversion from interp to sparse")
    # the same PDFs as they are coded, on the grid that is asked for
    num = int(rng.choice([45, 51]))
    out = extract_xy_sparse(ens, nvals=num)
    grid = np.asarray(out["xvals"], dtype=float).ravel()
    ctx.true("xy_sparse", len(grid) == num and np.shape(out["yvals"]) == (npdf, num), "extract_xy_sparse: grid of %i, values of shape %s" % (len(grid), np.shape(out["yvals"])))
    ctx.close("xy_sparse", grid, np.linspace(x[0], x[-1], num), rtol=0, atol=1e-9 * w, msg="extract_xy_sparse: grid")
    vals = np.asarray(out["yvals"], dtype=float)
    ctx.close("xy_sparse", np.sum(0.5 * np.diff(grid) * (vals[:, 1:] + vals[:, :-1]), axis=1), np.ones(npdf), rtol=1e-9, msg="extract_xy_sparse: integrals")
    ctx.close("xy_sparse", vals, np.array([np.interp(grid, x, y) for y in ys]), rtol=0, atol=0.05 * np.max(ys), msg="extract_xy_sparse: values")
    # the shapes of the elements of the same PDFs
    num = int(rng.choice([41, 50]))
    out = extract_voigt_xy(ens, nz=num)
    grid = np.linspace(x[0], x[-1], num)
    coded = extract_voigt_xy_sparse(ens, nz=num)
    ctx.close("voigt", coded["metadata"]["xvals"], grid, rtol=0, atol=1e-9 * w, msg="extract_voigt_xy_sparse: grid")
    shapes = [np.asarray(out[name], dtype=float) for name in ("means", "stds", "weights", "gammas")]
    if ctx.true("voigt", all(v.shape == (npdf, 20) for v in shapes), "extract_voigt_xy: shapes %s" % [v.shape for v in shapes]):
        for i in range(npdf):
            tot = np.zeros(num)
            for m, s, v, g in zip(*[v[i] for v in shapes]):
                elem = voigt_profile(grid - m, s, g)
                elem = np.where(elem >= 1e-5, elem, 0.0)
                tot = tot + v * elem / np.sqrt(np.sum(elem**2))
            tot = tot / np.sum(0.5 * np.diff(grid) * (tot[1:] + tot[:-1]))
            ctx.close("voigt", tot, np.interp(grid, x, ys[i]), rtol=0, atol=0.05 * np.max(ys), msg="extract_voigt_xy: sum of the elements of PDF %i" % i)
    mix = gen_mixmod(rng)
    one = mix.make()
    out = extract_voigt_mixmod(one)
    for name in ("means", "stds", "weights"):
        ctx.equal("voigt", out[name], one.objdata()[name], "extract_voigt_mixmod: %s" % name)
    ctx.equal("voigt", out["gammas"], np.zeros(np.shape(out["means"])), "extract_voigt_mixmod: gammas")
    ctx.seen("defaults", style, npdf, len(x))


def rows(ctx):
    """A sparse ensemble of many rows is made of its rows"""
    rng = ctx.rng
    case = gen_sparse(rng)
    ens = case.make()
    x = case.ref.xs[0]
    close_vals(ctx, "model", ens.pdf(x), case.ref_pdf(x), "%s: pdf at the grid" % case.label, width=case.width())
    i = int(rng.integers(case.npdf))
    close_vals(ctx, "row", ens.pdf(x)[[i]], case.single(i).pdf(x), "%s: row %i alone" % (case.label, i), width=case.width())
    ctx.equal("stored", ens.objdata()["sparse_indices"], case.obj["sparse_indices"], "%s: stored codes" % case.label)
    ctx.seen("rows", case.label, case.npdf)


WORKLOADS = [("codec", codec), ("basis", basis), ("search", search), ("represent", represent), ("accurate", accurate), ("defaults", defaults), ("rows", rows)]
