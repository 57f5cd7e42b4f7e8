"""C12: append and concatenate keep every PDF, in order, or reject the whole operation."""
import numpy as np

import qp
from common import deep
from gens import ALL_KINDS, GENS, gen_ancil, gen_case
from lib import close_vals, dict_equal, probe_points, snapshot, state_equal
from monitors import fingerprint, random_key

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")
# what append() and concatenate() may raise when they reject
REJECT = (KeyError, ValueError, TypeError)


def build(ctx, case, anc, rows, style):
    """An ensemble holding the rows, built directly, by slicing, or by other means"""
    sub = None if anc is None else {k: v[rows] for k, v in anc.items()}
    if style == "fresh":
        return case.make(rows=rows, ancil=sub)
    ens = case.make(ancil=None if anc is None else {k: v.copy() for k, v in anc.items()})
    return ens[np.asarray(rows)]


def judge(ctx, got, case, rows, anc, lab):
    """got is exactly the rows of the case, in order"""
    rng = ctx.rng
    if not ctx.true("npdf", got.npdf == len(rows), "%s: npdf %s, expected %i" % (lab, got.npdf, len(rows))):
        return
    ctx.true("shape", tuple(np.atleast_1d(got.shape)) == (len(rows),), "%s: shape %s" % (lab, got.shape))
    whole = case.make()
    exact = case.kind not in RENORM
    dict_equal(ctx, "meta", got.metadata(), whole.metadata(), "%s: metadata" % lab, exact=exact, rtol=1e-13)
    dict_equal(ctx, "objdata", got.objdata(), {k: np.asarray(v)[rows] for k, v in whole.objdata().items()}, "%s: objdata" % lab, exact=exact, rtol=1e-12)
    if anc is None:
        ctx.true("ancil", got.ancil is None, "%s: ancil is %s" % (lab, got.ancil))
    elif ctx.true("ancil", got.ancil is not None, "%s: the ancil is gone" % lab):
        dict_equal(ctx, "ancil", got.ancil, {k: v[rows] for k, v in anc.items()}, "%s: ancil" % lab)
    xs, qs = probe_points(case, rng, 5)
    for fun in ("pdf", "cdf"):
        close_vals(ctx, fun, getattr(got, fun)(xs), getattr(whole, fun)(xs)[rows], "%s: %s" % (lab, fun), width=case.width())
    if case.kind not in ("mixmod", "spline"):
        ctx.close("ppf", got.ppf(qs), whole.ppf(qs)[rows], rtol=1e-8, atol=1e-9 * case.width(), msg="%s: ppf" % lab)
    i = int(rng.integers(len(rows)))
    close_vals(ctx, "row", got[i].pdf(xs), case.single(rows[i]).pdf(xs), "%s: row %i" % (lab, i), width=case.width())


def join(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.7 else None
    num = int(rng.choice([1, 2, 2, 3, 6]))
    parts, all_rows = [], []
    have = []
    for k in range(num):
        rows = rng.integers(0, case.npdf, size=int(rng.choice([1, 2, case.npdf])))
        with_anc = anc if rng.random() < 0.85 else None
        have.append(with_anc is not None)
        parts.append(build(ctx, case, with_anc, rows, str(rng.choice(["fresh", "slice"]))))
        all_rows.append(rows)
    if num > 1 and rng.random() < 0.2:
        # the same object twice
        parts[-1], all_rows[-1], have[-1] = parts[0], all_rows[0], have[0]
    rows = np.concatenate(all_rows)
    keep = anc if all(have) else None
    prints = [fingerprint(p) for p in parts]
    lab = "%s, %i ensembles of %s" % (case.label, num, [len(r) for r in all_rows])
    ctx.note(lab)
    got = qp.concatenate(parts) if rng.random() < 0.5 else qp.factory.instance().concatenate(list(parts))
    judge(ctx, got, case, rows, keep, "concatenate " + lab)
    ctx.true("inputs", [fingerprint(p) for p in parts] == prints, "concatenate %s modified its inputs" % lab)
    # appending to the first, one after the other, with use in between
    first = parts[0][np.arange(parts[0].npdf)]
    sofar, ok = all_rows[0], have[0]
    for k in range(1, num):
        if rng.random() < 0.4:
            xs, _ = probe_points(case, rng, 3)
            first.gridded(xs)
            first.cdf(xs)
        first.append(parts[k])
        sofar = np.concatenate([sofar, all_rows[k]])
        ok = ok and have[k]
        judge(ctx, first, case, sofar, anc if ok else None, "append %i of %s" % (k, lab))
    ctx.true("inputs", [fingerprint(p) for p in parts] == prints, "append %s modified its inputs" % lab)
    # the result does not depend on what happens to the inputs later
    if num > 1:
        got.append(got)
        judge(ctx, got, case, np.concatenate([rows, rows]), keep, "append to itself, " + lab)
        ctx.true("inputs", [fingerprint(p) for p in parts] == prints, "append to the result of concatenate modified its inputs")
    ctx.ev("joins", num)
    ctx.seen(case.label, num, "ancil" if keep is not None else ("partly" if any(have) else "no"))


def other_meta(rng, case):
    """The same representation with different shared metadata, if there is any"""
    meta = deep(case.meta)
    if case.kind == "hist":
        key, what = "bins", meta["bins"]
    elif case.kind in ("interp", "packed_interp", "sparse"):
        key, what = "xvals", meta["xvals"]
    elif case.kind == "quant":
        if rng.random() < 0.5:
            have = meta.get("pdf_constructor_name", "piecewise_linear")
            names = [n for n in ("piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average") if n != have]
            meta["pdf_constructor_name"] = str(rng.choice(names))
            return meta, "pdf_constructor_name"
        key, what = "quants", meta["quants"]
    else:
        return None, None
    if case.kind == "packed_interp" and rng.random() < 0.4:
        from qp.packing_utils import PackingType

        meta["packing_type"] = PackingType.linear_from_rowmax if meta["packing_type"] == PackingType.log_from_rowmax else PackingType.log_from_rowmax
        return meta, "packing_type"
    if case.kind == "sparse" and rng.random() < 0.4:
        meta["mu"] = meta["mu"] + 0.1
        return meta, "mu"
    if rng.random() < 0.35:
        # hardly different: one value in the middle, by more than the rounding of anything
        near = np.array(what, dtype=float)
        i = len(near) // 2
        step = float(rng.choice([1e-3, 1e-2])) * abs(near[i])
        if 3 <= len(near) and 1e-4 * abs(near[-1] - near[0]) < step < 0.5 * (near[i + 1] - near[i] if i + 1 < len(near) else near[i] - near[i - 1]):
            near[i] = near[i] + (step if i + 1 < len(near) else -step)
            meta[key] = near
            return meta, key
    if key == "quants":
        inner = np.array(what)
        i = len(inner) // 2
        inner[i] = 0.5 * (inner[i] + inner[i + 1])
        meta[key] = inner
    elif rng.random() < 0.5:
        meta[key] = what + 0.3 * (what[-1] - what[0])
    else:
        shifted = np.array(what)
        i = int(rng.integers(1, len(what) - 1)) if len(what) > 2 else 0
        shifted[i] = shifted[i] + 0.4 * (shifted[i + 1] - shifted[i])
        meta[key] = shifted
    return meta, key


def rejected(ctx, ens, bad, lab, anc_ok=True):
    """Both operations reject, and change nothing"""
    case_xs = ens["xs"]
    first = ens["ens"]
    before, hashes = snapshot(first, case_xs), (fingerprint(first), fingerprint(bad))
    ctx.raises("reject", REJECT, lambda: first.append(bad), "append: " + lab)
    state_equal(ctx, "state", snapshot(first, case_xs), before, "after a rejected append: " + lab)
    ctx.raises("reject", REJECT, lambda: qp.concatenate([first, bad]), "concatenate: " + lab)
    ctx.raises("reject", REJECT, lambda: qp.concatenate([first, first, bad, first]), "concatenate: " + lab)
    ctx.true("inputs", (fingerprint(first), fingerprint(bad)) == hashes, "a rejected operation modified an ensemble: " + lab)
    first.gridded(case_xs)
    ctx.raises("reject", REJECT, lambda: first.append(bad), "append: " + lab)
    close_vals(ctx, "state", first.gridded(case_xs)[1], before["pdf"], "gridded() after a rejected append: " + lab)


def rejects(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None
    first = dict(ens=case.make(ancil=anc), xs=np.sort(case.points(rng, 4)))
    style = (ctx.index // 9) % 4
    if style == 0:
        kind = str(rng.choice([k for k in ALL_KINDS if k != ALL_KINDS[ctx.index % len(ALL_KINDS)]]))
        bad = GENS[kind](rng, npdf=int(rng.choice([1, case.npdf])))
        bad_ens = bad.make(ancil=None if anc is None or bad.npdf != case.npdf else anc)
        lab = "%s and %s" % (case.label, bad.label)
    elif style == 1:
        meta, key = other_meta(rng, case)
        if meta is None:
            if case.kind == "mixmod":
                bad_ens = GENS["mixmod"](rng, ncomp=case.obj["means"].shape[1] + 1).make()
                lab = "mixmod with another number of components"
            elif case.kind in ("interp_irregular", "spline"):
                while True:
                    bad = GENS["irr" if case.kind == "interp_irregular" else "spline"](rng)
                    names = list(bad.obj)
                    if bad.obj[names[0]].shape[1] != case.obj[names[0]].shape[1]:
                        break
                bad_ens = bad.make()
                lab = "%s with another number of points" % case.kind
            else:
                while True:
                    bad = GENS["scipy"](rng)
                    if bad.kind != case.kind:
                        break
                bad_ens = bad.make()
                lab = "%s and %s" % (case.kind, bad.kind)
        else:
            bad_case = case.subset(rng.integers(0, case.npdf, size=2))
            bad_case.meta = meta
            bad_ens = bad_case.make()
            lab = "%s with other %s" % (case.label, key)
    elif style == 2:
        # another number of points of the grid
        if case.kind in ("hist", "interp") and len(next(iter(case.meta.values()))) > 3:
            key = next(iter(case.meta))
            okey = next(iter(case.obj))
            bad_ens = qp.Ensemble(case.gen, data={key: case.meta[key][:-1], okey: np.array(case.obj[okey][:, :-1]) + 0.1})
            lab = "%s with fewer points" % case.label
        else:
            anc2 = dict(other=np.arange(case.npdf))
            first["ens"] = case.make(ancil=gen_ancil(rng, case.npdf))
            bad_ens = case.make(ancil=anc2)
            lab = "%s with other columns of ancillary data" % case.label
    else:
        anc1 = gen_ancil(rng, case.npdf)
        first["ens"] = case.make(ancil=anc1)
        anc2 = dict(anc1, more=np.zeros(case.npdf))
        bad_ens = case.make(ancil=anc2)
        lab = "%s with more columns of ancillary data" % case.label
    ctx.note(lab)
    rejected(ctx, first, bad_ens, lab)
    ctx.seen("reject", style, lab)


def units(ctx):
    """Metadata are compared on their own scale: in units where all values are tiny or huge"""
    rng = ctx.rng
    unit = 10.0 ** float(rng.choice([-12.0, -9.0, -7.0, 6.0, 9.0]))
    npdf, num = int(rng.integers(1, 4)), int(rng.integers(3, 9))
    grid = unit * (np.cumsum(rng.uniform(0.5, 1.0, size=num)) + rng.uniform(-1, 1))
    kind = ["hist", "interp"][ctx.index % 2]
    vals = rng.uniform(0.5, 1.0, size=(npdf, num - 1 if kind == "hist" else num))
    keys = ("bins", "pdfs") if kind == "hist" else ("xvals", "yvals")
    gen = qp.hist if kind == "hist" else qp.interp
    first = qp.Ensemble(gen, data={keys[0]: grid, keys[1]: vals})
    second = qp.Ensemble(gen, data={keys[0]: grid.copy(), keys[1]: vals[::-1]})
    xs = grid[:-1] + 0.3 * np.diff(grid)
    both = qp.concatenate([first, second])
    ctx.close("tiny", both.pdf(xs), np.concatenate([first.pdf(xs), second.pdf(xs)]), rtol=1e-9, atol=0, msg="%s in units of %g" % (kind, unit))
    other = np.array(grid)
    i = int(rng.integers(1, num - 1))
    other[i] = other[i] + 0.5 * (other[i + 1] - other[i])
    third = qp.Ensemble(gen, data={keys[0]: other, keys[1]: vals})
    rejected(ctx, dict(ens=first, xs=xs), third, "%s in units of %g with another grid" % (kind, unit))
    ctx.seen("units", kind, unit)


def columns(rng, npdf, style):
    """One column of ancillary data, whose type depends on the ensemble"""
    if style == "str":
        return np.array(["n" * int(rng.integers(1, 3 + 4 * int(rng.integers(0, 3)))) + str(i) for i in range(npdf)])
    if style == "bytes":
        return np.array([b"n" * int(rng.integers(1, 3 + 4 * int(rng.integers(0, 3)))) + b"%i" % i for i in range(npdf)])
    kind = str(rng.choice(["i2", "i4", "i8", "f4", "f8", "?"]))
    if kind == "?":
        return rng.random(npdf) < 0.5
    if kind[0] == "i":
        return rng.integers(-30000, 30000, size=npdf).astype(kind) * (1 if kind == "i2" else 1000)
    return (1000 * rng.normal(size=npdf)).astype(kind)


def lossless(got, pieces):
    """got holds the values of the pieces, one after the other, none of them cut or rounded"""
    got = np.asarray(got)
    if len(got) != sum(len(p) for p in pieces):
        return False
    pos = 0
    for piece in pieces:
        have = got[pos : pos + len(piece)]
        pos += len(piece)
        if piece.dtype.kind in "SU":
            if [str(v) for v in have] != [str(v) for v in piece]:
                return False
        elif have.dtype.kind not in "fiub" or not np.array_equal(have.astype("f8"), piece.astype("f8")):
            return False
    return True


def mixed(ctx):
    """Columns and data of another type in every ensemble: no value is cut or rounded to the type of another"""
    rng = ctx.rng
    case = gen_case(ctx)
    num = int(rng.integers(2, 5))
    names = {"name": str(rng.choice(["str", "bytes"])), "a": "num", "b": "num", "c": "num"}
    wide = bool(rng.random() < 0.5) and case.kind not in ("packed_interp", "sparse", "spline")
    parts, cols, dats, all_rows = [], [], [], []
    for _ in range(num):
        rows = rng.integers(0, case.npdf, size=int(rng.integers(1, 5)))
        anc = {k: columns(rng, len(rows), st) for k, st in names.items()}
        data = case.data(rows)
        if wide and rng.random() < 0.5:
            for key in case.obj:
                data[key] = np.asarray(data[key]).astype("f4")
        ens = qp.Ensemble(case.gen, data=data, ancil={k: v.copy() for k, v in anc.items()})
        parts.append(ens)
        cols.append(anc)
        dats.append({k: np.array(v) for k, v in ens.objdata().items()})
        all_rows.append(rows)
    lab = "%s, columns %s" % (case.label, [{k: str(v.dtype) for k, v in c.items()} for c in cols])
    ctx.note(lab)
    prints = [fingerprint(p) for p in parts]
    joined = [("concatenate", qp.concatenate(parts))]
    first = parts[0][np.arange(parts[0].npdf)]
    for other in parts[1:]:
        first.append(other)
    joined.append(("append", first))
    for what, got in joined:
        if not ctx.true("mixed", got.npdf == sum(len(r) for r in all_rows), "%s of %s: npdf %s" % (what, lab, got.npdf)):
            continue
        for key in names:
            pieces = [c[key] for c in cols]
            ctx.ev("columns")
            ctx.true("mixed", got.ancil is not None and lossless(got.ancil[key], pieces),
                     "%s of %s: the values of %s are %s, expected those of %s" % (what, lab, key, None if got.ancil is None else got.ancil[key], pieces))
        for key in case.obj:
            pieces = [d[key] for d in dats]
            want = np.concatenate([np.asarray(p, dtype="f8") for p in pieces])
            # 32 bit data may be normalised again, in 32 bits, but 64 bit rows keep their precision
            exact = [p.dtype.itemsize >= 8 or p.dtype.kind in "iu" for p in pieces]
            tol = np.concatenate([np.full(len(p), 1e-12 if e else 1e-5) for p, e in zip(pieces, exact)])
            have = np.asarray(got.objdata()[key], dtype="f8")
            if ctx.true("mixed", have.shape == want.shape, "%s of %s: shape of %s" % (what, lab, key)):
                scale = np.max(np.abs(want), axis=tuple(range(1, want.ndim))) if want.ndim > 1 else np.abs(want)
                err = np.abs(have - want)
                err = np.max(err, axis=tuple(range(1, err.ndim))) if err.ndim > 1 else err
                ctx.true("mixed", bool(np.all(err <= tol * scale)), "%s of %s: %s of rows %s changed by %s" % (what, lab, key, np.nonzero(err > tol * scale)[0][:5], err.max()))
    ctx.true("inputs", [fingerprint(p) for p in parts] == prints, "joining %s modified the inputs" % lab)
    ctx.seen("mixed", case.label, wide, names["name"], num)


WORKLOADS = [("join", join), ("rejects", rejects), ("units", units), ("mixed", mixed)]
