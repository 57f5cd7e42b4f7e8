"""C25: qp operations never modify the arrays and ensembles they are given."""
import os

import numpy as np
import pandas as pd

import qp
from common import TaskTimeout
from gens import ALL_KINDS, GENS, gen_ancil, gen_case
from lib import snapshot, state_equal
from monitors import fingerprint, session
from qp import packing_utils, sparse_rep, utils
from qp import dict_utils
from qp.metrics import array_metrics
from qp.metrics.pit import PIT
from qp.packing_utils import PackingType

M = qp.metrics


class Watch:
    """Calls functions, with fingerprints of everything they are given before and after"""

    def __init__(self, ctx, lab):
        self.ctx = ctx
        self.lab = lab
        self.vault = []

    def keep(self, name, obj):
        self.vault.append((name, obj, fingerprint(obj)))
        return obj

    def __call__(self, name, func, *args, **kwds):
        ctx = self.ctx
        before = [fingerprint(a) for a in args], {k: fingerprint(v) for k, v in kwds.items()}
        ctx.ev("call")
        out = None
        try:
            out = func(*args, **kwds)
        except TaskTimeout:
            raise
        except Exception as exc:  # what has to work is for the other checks; nothing is modified either way
            ctx.ev("declined")
            ctx.seen(name, "declined", type(exc).__name__)
        after = [fingerprint(a) for a in args], {k: fingerprint(v) for k, v in kwds.items()}
        bad = [i for i, (a, b) in enumerate(zip(before[0], after[0])) if a != b]
        bad += [k for k in kwds if before[1][k] != after[1][k]]
        ctx.true("arguments", not bad, "%s: %s modified its arguments %s" % (self.lab, name, bad))
        ctx.seen(self.lab, name)
        return out

    def finish(self):
        for name, obj, hsh in self.vault:
            self.ctx.true("later", fingerprint(obj) == hsh, "%s: %s was modified later" % (self.lab, name))


def calls(ctx):
    """Everything that takes an ensemble"""
    rng = ctx.rng
    case = gen_case(ctx)
    slow = case.kind == "spline"
    lab = case.label
    watch = Watch(ctx, lab)
    npdf, w = case.npdf, case.width()
    data = watch.keep("constructor data", case.data())
    anc = watch.keep("ancil", gen_ancil(rng, npdf))
    ens = watch("Ensemble", qp.Ensemble, case.gen, data, anc)
    watch.keep("ensemble", ens)
    x = np.sort(case.points(rng, 4))
    q = np.array([0.2, 0.7])
    before = snapshot(ens, x, q)
    other = watch.keep("other ensemble", case.make(ancil={k: np.array(v)[::-1] for k, v in anc.items()}))
    grid = watch.keep("grid", np.linspace(case.lo, case.hi, 9))
    bins = watch.keep("bins", np.linspace(case.lo, case.hi, 6))
    quants = watch.keep("quants", np.linspace(0.05, 0.95, 9))
    truth = watch.keep("truth", rng.uniform(case.lo, case.hi, size=npdf))
    limits = (float(case.lo), float(case.hi))
    pts = watch.keep("points", case.points(rng, npdf * 3).reshape(npdf, 3))
    extra = watch.keep("extra", dict(extra=np.arange(npdf) * 1.0))
    todo = []

    def add(name, *args, **kwds):
        todo.append((name, args, kwds))

    E = qp.Ensemble
    for name in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf"):
        add(name, getattr(E, name), ens, pts)
        add(name, getattr(E, name), ens, grid)
        add(name, getattr(E, name), ens, grid[::-1])
    if not slow:
        add("ppf", E.ppf, ens, quants)
        add("isf", E.isf, ens, quants)
        add("rvs", E.rvs, ens, size=3, random_state=1)
        add("interval", E.interval, ens, 0.5)
    add("gridded", E.gridded, ens, grid)
    add("mode", E.mode, ens, grid)
    add("histogramize", E.histogramize, ens, bins)
    add("integrate", E.integrate, ens, (pts[:, :1], pts[:, 1:2]))
    add("moment_partial", E.moment_partial, ens, 2, limits, w / 20)
    add("build_tables", E.build_tables, ens)
    add("getitem", E.__getitem__, ens, np.arange(npdf)[::-1])
    add("getitem mask", E.__getitem__, ens, np.arange(npdf) % 2 == 0)
    # conversions
    add("to hist", qp.convert, ens, "hist", bins=bins)
    add("to interp", qp.convert, ens, "interp", xvals=grid)
    add("to irregular", qp.convert, ens, "interp_irregular", xvals=grid)
    add("to spline", qp.convert, ens, "spline", xvals=grid, method="xy")
    add("to packed", qp.convert, ens, "packed_interp", xvals=grid, packing_type=PackingType.linear_from_rowmax)
    if not slow:
        add("to quant", qp.convert, ens, "quant", quants=quants)
        add("to hist samples", qp.convert, ens, "hist", bins=bins, size=20, method="samples")
        if ctx.index % 4 == 0:
            add("to mixmod", qp.convert, ens, "mixmod", samples=60, ncomps=1)
            add("to spline samples", qp.convert, ens, "spline", xvals=grid, samples=50, method="samples")
    add("convert_to", E.convert_to, ens, qp.interp_gen, xvals=grid)
    if case.kind == "interp" and ctx.index % 18 == 1:
        fine = watch.keep("fine grid", np.linspace(case.lo, case.hi, 41))
        add("to sparse", qp.convert, ens, "sparse", xvals=fine, yvals=watch.keep("fine values", ens.pdf(fine)), nvals=31)
    # joining
    add("concatenate", qp.concatenate, [ens, other])
    add("concatenate many", qp.concatenate, [ens, other, ens])

    def appended(first, second):
        live = first[np.arange(npdf)]
        live.append(second)
        live.append(second)
        return live

    add("append", appended, ens, other)

    def updated(first, new, part, ancil):
        live = first[np.arange(npdf)]
        live.update(new, ancil)
        live.update_objdata(part, ancil)
        live.set_ancil(ancil)
        live.add_to_ancil(dict(more=np.zeros(npdf)))
        live.pdf(grid)
        return live

    add("update", updated, ens, data, {k: v for k, v in data.items() if k in case.obj}, anc)
    add("add_to_ancil", lambda first, more: first[np.arange(npdf)].add_to_ancil(more), ens, extra)
    # files and dictionaries
    ext = ["hdf5", "fits", "pq", "h5"][ctx.index % 4]
    add("write_to", E.write_to, ens, os.path.join(ctx.scratch, "a." + ext))
    add("from_tables", qp.from_tables, ens.build_tables())
    add("write_dict", qp.write_dict, os.path.join(ctx.scratch, "d.hdf5"), dict(one=ens, two=other))
    add("read", qp.read, os.path.join(ctx.scratch, "a." + ext))

    def chunks(first):
        import h5py

        path = os.path.join(ctx.scratch, "c.hdf5")
        groups, fout = first.initializeHdf5Write(path, npdf)
        first.writeHdf5Chunk(groups, 0, npdf)
        first.finalizeHdf5Write(fout)
        del h5py
        return path

    add("chunked write", chunks, ens)
    add("create", qp.create, ens.gen_class.name, data)
    # metrics
    dx = w / 15
    add("calculate_kld", M.calculate_kld, ens, other, limits, dx)
    add("calculate_rmse", M.calculate_rmse, ens, other, limits, dx)
    add("calculate_moment", M.calculate_moment, ens, 1, limits, dx)
    add("calculate_brier", M.calculate_brier, ens, truth, limits, dx)
    add("calculate_outlier_rate", M.calculate_outlier_rate, ens, limits[0], limits[1])
    add("cdeloss", M.CDELossMetric(eval_grid=grid).evaluate, ens, truth)
    add("cdeloss accumulate", M.CDELossMetric(eval_grid=grid).accumulate, ens, truth)
    add("brier accumulate", M.BrierMetric(limits=limits, dx=dx).accumulate, ens, truth)
    if not slow:
        for stat in ("ad", "ks", "cvm"):
            add("goodness " + stat, M.calculate_goodness_of_fit, ens, other, stat, 10, 7)
        add("ad class", M.ADMetric(num_samples=10, _random_state=3).evaluate, ens, other)
        if ctx.index % 4 == 1:
            add("calculate_rbpe", M.calculate_rbpe, ens[[0]], limits)
    if npdf > 4 and not slow:
        add("PIT", PIT, ens, truth, quants)
        pitm = M.PITMetric(eval_grid=quants)
        pitm.initialize()
        add("PITMetric", pitm.evaluate, ens, truth)
        add("PITMetric accumulate", pitm.accumulate, ens, truth)
    for j in rng.permutation(len(todo)):
        name, args, kwds = todo[j]
        watch(name, *args, **kwds)
        if rng.random() < 0.2:
            ctx.true("receiver", fingerprint(ens) == watch.vault[2][2], "%s: the ensemble was modified by %s" % (lab, name))
    watch.finish()
    state_equal(ctx, "evaluations", snapshot(ens, x, q), before, "%s after all operations" % lab)


def helpers(ctx):
    """Functions that take arrays"""
    rng = ctx.rng
    watch = Watch(ctx, "helpers")
    npdf, num = int(rng.integers(1, 6)), int(rng.integers(8, 15))
    grid = watch.keep("grid", np.sort(rng.uniform(0, 3, size=num)))
    vals = watch.keep("values", rng.uniform(0.1, 2.0, size=(npdf, num)))
    raw = watch.keep("raw", np.where(rng.random((npdf, num)) < 0.3, -1e-3, vals))
    many = watch.keep("many x", np.tile(grid, (npdf, 1)) + 0.01 * np.arange(npdf).reshape(-1, 1))
    x = watch.keep("x", rng.uniform(0, 3, size=npdf * 2))
    row = watch.keep("row", rng.integers(0, npdf, size=npdf * 2))
    row_col = watch.keep("row column", np.arange(npdf).reshape(-1, 1))
    bins = watch.keep("bins", np.concatenate([grid, [grid[-1] + 0.3]]))
    quants = watch.keep("quants", np.linspace(0.1, 0.9, num))
    locs = watch.keep("locs", np.sort(vals, axis=1))
    todo = []

    def add(name, *args, **kwds):
        todo.append((name, args, kwds))

    for xx, rr, lay in ((x, row, "flat"), (grid, row_col, "product"), (many, row_col, "2d")):
        add("get_eval_case " + lay, utils.get_eval_case, xx, rr)
        add("hist x multi y " + lay, utils.evaluate_hist_x_multi_y, xx, rr, bins, vals)
        add("hist derivs " + lay, utils.evaluate_hist_x_multi_y, xx, rr, bins, vals, vals)
        add("hist multi x " + lay, utils.evaluate_hist_multi_x_multi_y, xx, rr, np.concatenate([many, many[:, -1:] + 1], axis=1), vals)
        add("interpolate x multi y " + lay, utils.interpolate_x_multi_y, xx, rr, grid, vals, bounds_error=False, fill_value=0.0)
        add("interpolate multi x multi y " + lay, utils.interpolate_multi_x_multi_y, xx, rr, many, vals, bounds_error=False, fill_value=0.0)
        add("interpolate multi x y " + lay, utils.interpolate_multi_x_y, xx, rr, many, grid, bounds_error=False, fill_value=(0.0, 1.0))
    add("safelog", utils.safelog, raw)
    add("edge_to_center", utils.edge_to_center, bins)
    add("bin_widths", utils.bin_widths, bins)
    add("get_bin_indices", utils.get_bin_indices, bins, x)
    add("normalize_interp1d", utils.normalize_interp1d, grid, vals)
    add("normalize_interp1d 2d", utils.normalize_interp1d, many, vals)
    add("build_kdes", utils.build_kdes, vals)
    add("profile", utils.profile, x, x, bins)
    add("profile err", utils.profile, x, x, bins, std=False)
    add("reshape_to_pdf_size", utils.reshape_to_pdf_size, vals, 0)
    add("reshape_to_pdf_shape", utils.reshape_to_pdf_shape, vals, (npdf,), (num,))
    for ptype in (PackingType.linear_from_rowmax, PackingType.log_from_rowmax):
        add("pack", packing_utils.pack_array, ptype, vals)
        add("pack zeros", packing_utils.pack_array, ptype, np.where(vals > 1, vals, 0.0))
    packed = watch.keep("packed", packing_utils.linear_pack_from_rowmax(vals)[0])
    top = watch.keep("row maxima", vals.max(axis=1, keepdims=True))
    add("unpack linear", packing_utils.linear_unpack_from_rowmax, packed, top)
    add("unpack log", packing_utils.log_unpack_from_rowmax, packed, top)
    add("pad_quantiles", qp.quant_pdf.pad_quantiles, quants, locs)
    add("kld", array_metrics.quick_kld, raw, vals, 0.1)
    add("rmse", array_metrics.quick_rmse, raw, vals, num)
    add("moment", array_metrics.quick_moment, vals, grid**2, 0.1)
    add("slice_dict", dict_utils.slice_dict, dict(a=vals, b=top), np.arange(npdf)[::-1])
    add("concatenate_dicts", dict_utils.concatenate_dicts, [dict(a=vals), dict(a=raw)])
    add("compare_dicts", dict_utils.compare_dicts, [dict(a=vals), dict(a=raw), dict(b=raw)])
    add("compare_two_dicts", dict_utils.compare_two_dicts, dict(a=vals), dict(a=raw))
    add("check_array_shapes", dict_utils.check_array_shapes, dict(a=vals), npdf)
    add("spline build", qp.spline_pdf.build_splines, many, vals)
    add("spline normalize", qp.spline_pdf.normalize_spline, many, vals, (float(grid[0]), float(grid[-1])))
    add("spline from xy", qp.spline_gen.create_from_xy_vals, xvals=many, yvals=vals)
    for ctor in ("piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"):
        add("quant " + ctor, lambda q, l, c=ctor: qp.Ensemble(qp.quant, data=dict(quants=q, locs=l, pdf_constructor_name=c)).pdf(grid), quants, locs)
    # point metrics
    est, ref = watch.keep("estimates", rng.uniform(0, 2, size=60)), watch.keep("references", rng.uniform(0, 2, size=60))
    for name in ("PointBias", "PointSigmaIQR", "PointSigmaMAD", "PointOutlierRate", "PointStatsEz"):
        metric = getattr(M, name)()
        add(name, metric.evaluate, est, ref)
        if hasattr(metric, "accumulate"):
            def accumulate(a, b, m=metric):
                m.initialize()
                return m.accumulate(a, b)

            add(name + " accumulate", accumulate, est, ref)
        if hasattr(metric, "eval_from_iterator"):
            add(name + " chunks", lambda a, b, m=metric: m.eval_from_iterator(a, b), [est[:30], est[30:]], [ref[:30], ref[30:]])
    # sparse coding
    mat = rng.normal(size=(12, 7))
    mat = watch.keep("dictionary", mat / np.sqrt(np.sum(mat**2, axis=0)))
    vec = watch.keep("vector", mat @ rng.uniform(0, 1, size=7))
    add("sparse_basis", sparse_rep.sparse_basis, mat, vec, 3)
    add("sparse_basis tolerance", sparse_rep.sparse_basis, mat, vec, 5, 1e-3)
    x2 = watch.keep("x grid", np.linspace(0, 2, 25))
    p2 = watch.keep("pdfs", np.exp(-0.5 * ((x2 - rng.uniform(0.6, 1.4, size=(npdf, 1))) / 0.2) ** 2))
    add("build_sparse", sparse_rep.build_sparse_representation, x2, p2, np.array([0.2, 1.8]), 5, np.array([0.1, 0.3]), 2, 2, 3, 1e-6, False)
    meta = watch.keep("sparse meta", dict(xvals=x2, mu=[0.2, 1.8], sig=[0.1, 0.3], dims=[5, 2, 2, 32001, 3]))
    basis = sparse_rep.create_voigt_basis(x2, (0.2, 1.8), 5, (0.1, 0.3), 2, 2)
    code = watch.keep("codes", np.array([[(int(rng.integers(1, 32000)) << 16) | int(v) for v in rng.permutation(20)[:3]] for _ in range(npdf)]))
    add("decode", sparse_rep.decode_sparse_indices, code)
    add("indices2shapes", sparse_rep.indices2shapes, code, meta)
    add("pdf_from_sparse", sparse_rep.pdf_from_sparse, code, basis, x2)
    add("create_basis", sparse_rep.create_basis, dict(xvals=x2, dims=[5, 2, 2, 32001, 3], mu=[0.2, 1.8], sig=[0.1, 0.3]))
    for j in rng.permutation(len(todo)):
        name, args, kwds = todo[j]
        watch(name, *args, **kwds)
    watch.finish()


def tables(ctx):
    """Tables and dictionaries of ensembles that are handed over"""
    rng = ctx.rng
    case = gen_case(ctx)
    watch = Watch(ctx, case.label)
    ens = case.make(ancil=gen_ancil(rng, case.npdf))
    tabs = watch.keep("tables", ens.build_tables())
    one = watch("from_tables", qp.from_tables, tabs)
    # the ensemble made from tables is used in all ways
    if one is not None:
        part = one[np.arange(case.npdf)]
        part.add_to_ancil(dict(new=np.ones(case.npdf)))
        part.append(case.make(ancil=None))
        part.pdf(np.linspace(case.lo, case.hi, 5))
        one.update(case.data(), dict(b=np.arange(case.npdf)))
    watch.finish()
    ens = case.make(ancil=gen_ancil(rng, case.npdf))
    group = watch.keep("dictionary of ensembles", dict(a=ens, b=case.make()))
    path = os.path.join(ctx.scratch, "g.hdf5")
    watch("write_dict", qp.write_dict, path, group)
    back = watch("read_dict", qp.read_dict, path)
    if back:
        watch("use", lambda d: [v.pdf(np.linspace(case.lo, case.hi, 4)) for v in d.values()], back)
    # the caller's arrays, where an ensemble made from them is updated afterwards
    data, anc = watch.keep("data", case.data()), watch.keep("ancil", gen_ancil(rng, case.npdf))
    live = qp.Ensemble(case.gen, data=data, ancil=anc)
    other = watch.keep("appended", case.make(ancil={k: np.array(v) for k, v in anc.items()}))
    live.append(other)
    live.add_to_ancil(dict(zz=np.arange(2 * case.npdf)))
    live.set_ancil(dict(only=np.arange(2 * case.npdf)))
    live.update(case.data(rows=[0]))
    watch.finish()
    _ = pd
    ctx.seen("tables", case.label)


def sessions(ctx):
    session(ctx, judge=("args",))


WORKLOADS = [("calls", calls), ("helpers", helpers), ("tables", tables), ("sessions", sessions)]
_ = (ALL_KINDS, GENS)
