"""C07: write_to() followed by read() gives back the same ensemble."""
import os

import numpy as np

import qp
from common import norm_arr
from gens import ALL_KINDS, GENS, gen_ancil, gen_case
from lib import probe_points, snapshot, state_equal
from monitors import random_key

FORMATS = ["hdf5", "h5", "hf5", "fits", "pq", "parq", "parquet"]
HDF = ("hdf5", "h5", "hf5")
# the values are normalised again when they are read
RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")


def prepare(ctx, case, anc):
    """An ensemble with a history"""
    rng = ctx.rng
    ens = case.make(ancil=anc)
    rows = np.arange(case.npdf)
    for _ in range(int(rng.integers(0, 3))):
        oper = str(rng.choice(["slice", "append", "ancil", "eval"]))
        ctx.note("before writing:", oper)
        if oper == "slice":
            key, sel = random_key(rng, ens.npdf)
            ens, rows = ens[key], rows[sel]
        elif oper == "append":
            key, sel = random_key(rng, ens.npdf)
            ens = ens[np.arange(ens.npdf)]
            ens.append(ens[key])
            rows = np.concatenate([rows, rows[sel]])
        elif oper == "ancil":
            ens = ens[np.arange(ens.npdf)]
            ens.add_to_ancil(dict(more=rng.normal(size=ens.npdf)))
        else:
            ens.pdf(case.points(rng, 3))
    return ens, rows


def roundtrip(ctx):
    rng = ctx.rng
    fmt = FORMATS[(ctx.index // 9) % len(FORMATS)]
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.75 else None
    if anc is not None and fmt in HDF and rng.random() < 0.3:
        anc["name"] = np.array([b"galaxy%i" % k for k in range(case.npdf)])
        anc["name"] = anc["name"].reshape(-1, 1)
    ens, rows = prepare(ctx, case, anc)
    if case.kind == "quant" and rng.random() < 0.5:
        ens.dist.pdf_constructor_name = str(rng.choice(["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]))
    lab = "%s %s" % (case.label, fmt)
    xs, qs = probe_points(case, rng)
    want = snapshot(ens, xs, qs)
    path = os.path.join(ctx.scratch, "ens%i.%s" % (int(rng.integers(100)), fmt))
    if rng.random() < 0.3:
        os.makedirs(os.path.join(ctx.scratch, "some.dir"), exist_ok=True)
        path = os.path.join(ctx.scratch, "some.dir", "an.ens." + fmt)
    ctx.note("write", os.path.basename(path))
    ens.write_to(path)
    got_ens = qp.read(path)
    got = snapshot(got_ens, xs, qs)
    exact = case.kind not in RENORM
    state_equal(ctx, "read", got, want, "%s: read back" % lab, exact=exact, rtol=1e-13)
    if want["ancil"] is not None and got["ancil"] is not None:
        for key, val in want["ancil"].items():
            ctx.true("ancil-kind", norm_arr(got["ancil"][key]).dtype.kind == norm_arr(val).dtype.kind, "%s: kind of ancil %s changed" % (lab, key))
    # the model, so that the same mistake in writing and reading is seen
    sub = case.subset(rows).make()
    if case.kind == "quant":
        sub.dist.pdf_constructor_name = ens.dist.pdf_constructor_name
    ctx.close("model", got["pdf"], sub.pdf(xs), rtol=1e-8, atol=1e-11 / case.width(), msg="%s: pdf of the rows written" % lab)
    if anc is not None:
        ctx.equal("model-ancil", got_ens.ancil["idx"], anc["idx"][rows], "%s: ancil of the rows written" % lab)
        ctx.equal("model-ancil", got_ens.ancil["z"], anc["z"][rows], "%s: ancil of the rows written" % lab)
    # again
    path2 = os.path.join(ctx.scratch, "again.%s" % str(rng.choice(FORMATS)))
    if not (anc is not None and "name" in anc):
        got_ens.write_to(path2)
        third = snapshot(qp.read(path2), xs, qs)
        state_equal(ctx, "again", third, want, "%s: written again as %s and read" % (lab, os.path.basename(path2)), exact=exact, rtol=1e-12)
    # the metadata alone
    if fmt in HDF + ("fits",):
        meta = qp.read_metadata(path)
        for key, val in want["meta"].items():
            g, w = norm_arr(meta[key]), norm_arr(val)
            ctx.true("metadata", np.array_equal(np.squeeze(g), np.squeeze(w)) if w.dtype.kind in "SU" else np.allclose(np.squeeze(g).astype(float), np.squeeze(w).astype(float), rtol=1e-15, atol=0),
                     "%s: read_metadata()[%s] differs" % (lab, key), got=g, want=w)
    ctx.true("is_qp", qp.is_qp_file(path), "%s: is_qp_file is false for a qp file" % lab)
    if fmt == "hdf5":
        ctx.true("length", qp.data_length(path) == ens.npdf, "%s: data_length %s, expected %i" % (lab, qp.data_length(path), ens.npdf))
    ctx.ev("files", 2)
    ctx.seen(case.label, fmt, "ancil" if want["ancil"] is not None else "no ancil", "n1" if ens.npdf == 1 else "n")


def notqp(ctx):
    """Files that are not qp files are reported as such"""
    import tables_io

    rng = ctx.rng
    style = ctx.index % 4
    if style == 0:
        path = os.path.join(ctx.scratch, "plain.hdf5")
        tables_io.write(dict(data=dict(a=rng.normal(size=5))), os.path.join(ctx.scratch, "plain"), "hdf5")
    elif style == 1:
        path = os.path.join(ctx.scratch, "meta.hdf5")
        tables_io.write(dict(data=dict(a=rng.normal(size=5)), meta=dict(b=rng.normal(size=1))), os.path.join(ctx.scratch, "meta"), "hdf5")
    elif style == 2:
        path = os.path.join(ctx.scratch, "text.hdf5")
        with open(path, "w", encoding="utf-8") as fout:
            fout.write("this is not a table\n")
    else:
        path = os.path.join(ctx.scratch, "missing.hdf5")
    ctx.true("not_qp", qp.is_qp_file(path) is False, "is_qp_file(%s) is true" % os.path.basename(path))
    if style < 2:
        case = gen_case(ctx)
        good = os.path.join(ctx.scratch, "good.hdf5")
        case.make().write_to(good)
        ctx.true("is_qp", qp.is_qp_file(good), "is_qp_file is false for a qp file")
    ctx.seen("not qp", style)


def overwrite(ctx):
    """What is read is the ensemble that was written last, whatever the file held before"""
    rng = ctx.rng
    fmt = FORMATS[(ctx.index // 9) % len(FORMATS)]
    path = os.path.join(ctx.scratch, "same." + fmt)
    case = gen_case(ctx)
    for step in range(int(rng.integers(2, 4))):
        anc = gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None
        ens = case.make(ancil=anc)
        xs, qs = probe_points(case, rng, 5)
        want = snapshot(ens, xs, qs)
        ctx.note("write", step, case.label, ens.npdf, "ancil" if anc is not None else "no ancil")
        if fmt == "fits" and step:
            # fits files are never overwritten, the first ensemble has to remain
            ctx.raises("fits-overwrite", OSError, lambda: ens.write_to(path), "writing over a fits file")
            xs, qs, want, label = first
        else:
            ens.write_to(path)
            label = case.label
        got = snapshot(qp.read(path), xs, qs)
        first = (xs, qs, want, label)
        state_equal(ctx, "overwritten", got, want, "%s %s: read after writing %i times" % (label, fmt, step + 1),
                    exact=label.split("/")[0] not in RENORM, rtol=1e-13)
        ctx.ev("files")
        ctx.seen("overwrite", fmt, step, anc is not None)
        case = GENS[str(rng.choice(ALL_KINDS))](rng) if rng.random() < 0.5 else case.subset(rng.integers(0, case.npdf, size=int(rng.integers(1, 5))))


WORKLOADS = [("roundtrip", roundtrip), ("overwrite", overwrite), ("notqp", notqp)]
