"""C27: quantile ensembles: padding and constructors are correct and switchable."""
import copy
import os
import pickle

import numpy as np

import qp
from gens import CTORS, RefQuant, gen_quant
from lib import eval_tol
from qp.quant_pdf import pad_quantiles

NAMES = list(CTORS)
MODEL = ["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]


def padding(ctx):
    """Quantiles 0 and 1 are added when they are missing, by linear extrapolation"""
    rng = ctx.rng
    npdf, nq = int(rng.integers(1, 6)), int(rng.integers(2, 16))
    quants = np.cumsum(rng.uniform(0.05, 1.0, size=nq + 2))
    quants = (quants - quants[0]) / (quants[-1] - quants[0])
    quants = quants[1:-1]
    low, high = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    if low == 1:
        quants = np.concatenate([[0.0], quants])
    elif low == 2:
        quants = np.concatenate([[10.0 ** rng.uniform(-12, -3)], quants * 0.9 + 0.05])
    if high == 1:
        quants = np.concatenate([quants, [1.0]])
    elif high == 2:
        quants = np.concatenate([quants * 0.95, [1.0 - 10.0 ** rng.uniform(-12, -3)]])
    locs = np.cumsum(rng.uniform(0.01, 1.0, size=(npdf, quants.size)), axis=1) * 10.0 ** rng.uniform(-3, 3) + rng.normal() * 10
    style = int(rng.integers(0, 4))
    if style == 1:
        quants = quants.astype(np.float32)
        quants = np.unique(quants)
        locs = locs[:, : quants.size]
    elif style == 2:
        locs = np.cumsum(rng.integers(1, 9, size=locs.shape), axis=1)
    elif style == 3:
        locs = locs.astype(np.float32)
    lab = "%s quantiles from %r to %r, %s locations" % (quants.dtype, float(quants[0]), float(quants[-1]), locs.dtype)
    given = quants.copy(), locs.copy()
    got_q, got_l = pad_quantiles(quants, locs)
    ctx.equal("arguments", quants, given[0], "%s: the quantiles were changed" % lab)
    ctx.equal("arguments", locs, given[1], "%s: the locations were changed" % lab)
    add_lo, add_hi = quants[0] > np.finfo(float).eps, quants[-1] < 1.0
    want = np.concatenate([[0.0] if add_lo else [], given[0].astype(float), [1.0] if add_hi else []])
    if not ctx.close("quants", got_q, want, rtol=1e-15, atol=0, msg="%s: padded quantiles" % lab):
        return
    ctx.true("shape", got_l.shape == (npdf, want.size), "%s: locations of shape %s" % (lab, got_l.shape))
    inner = got_l[:, int(add_lo) : int(add_lo) + quants.size]
    ctx.close("kept", inner, given[1], rtol=1e-15, atol=0, msg="%s: the given locations" % lab)
    q, l = given[0].astype(float), given[1].astype(float)
    rel = 1e-5 if style in (1, 3) else 1e-9
    if add_lo:
        slope = (l[:, 1] - l[:, 0]) / (q[1] - q[0])
        ctx.close("low", got_l[:, 0], l[:, 0] - q[0] * slope, rtol=rel, atol=rel * np.max(np.abs(slope)) * q[0] + rel * 1e-2, msg="%s: location of 0" % lab)
        ctx.true("order", np.all(got_l[:, 0] <= got_l[:, 1]), "%s: the location of 0 is not the lowest" % lab)
    if add_hi:
        slope = (l[:, -1] - l[:, -2]) / (q[-1] - q[-2])
        ctx.close("high", got_l[:, -1], l[:, -1] + (1 - q[-1]) * slope, rtol=rel, atol=rel * np.max(np.abs(slope)) * (1 - q[-1]) + rel * 1e-2, msg="%s: location of 1" % lab)
        ctx.true("order", np.all(got_l[:, -1] >= got_l[:, -2]), "%s: the location of 1 is not the highest" % lab)
    again = pad_quantiles(got_q, got_l)
    ctx.true("once", np.array_equal(again[0], got_q) and np.array_equal(again[1], got_l), "%s: padding twice" % lab)
    # what the ensemble stores
    ens = qp.Ensemble(qp.quant, data=dict(quants=quants, locs=locs))
    ctx.close("stored", np.squeeze(ens.metadata()["quants"]), got_q, rtol=0, atol=0, msg="%s: quantiles of the ensemble" % lab)
    ctx.close("stored", ens.objdata()["locs"], got_l, rtol=0, atol=0, msg="%s: locations of the ensemble" % lab)
    raw = qp.Ensemble(qp.quant, data=dict(quants=quants, locs=locs, check_input=False))
    ctx.close("unpadded", np.squeeze(raw.metadata()["quants"]), given[0], rtol=0, atol=0, msg="%s: quantiles without check_input" % lab)
    ctx.close("unpadded", raw.objdata()["locs"], given[1], rtol=0, atol=0, msg="%s: locations without check_input" % lab)
    part = ens[int(rng.integers(npdf))]
    ctx.close("stored", np.squeeze(part.metadata()["quants"]), got_q, rtol=0, atol=0, msg="%s: quantiles of a selected PDF" % lab)
    ctx.seen("padding", low, high, style, "n1" if npdf == 1 else "n")


def name_of(ens):
    out = np.ravel(ens.metadata()["pdf_constructor_name"])[0]
    return out.decode() if isinstance(out, bytes) else str(out)


class Live:
    def __init__(self, ens, rows, name):
        self.ens, self.rows, self.name = ens, np.asarray(rows), name


def fresh(case, rows, name):
    data = dict(quants=case.ref.q0.copy(), locs=case.ref.l0[rows].copy(), pdf_constructor_name=name)
    return qp.Ensemble(qp.quant, data=data)


def judge(ctx, case, live, lab):
    """Compare with an ensemble built with the constructor, and with the documented model"""
    rng = ctx.rng
    ens, rows, name = live.ens, live.rows, live.name
    ctx.true("name", ens.dist.pdf_constructor_name == name, "%s: the constructor is %s, not %s" % (lab, ens.dist.pdf_constructor_name, name))
    ctx.true("metadata", name_of(ens) == name, "%s: metadata name %s, not %s" % (lab, name_of(ens), name))
    twin = fresh(case, rows, name)
    x = case.points(rng, int(rng.choice([3, len(rows), len(rows) + 1])))
    layout = int(rng.integers(0, 3))
    if layout == 0:
        pts, full = x, np.tile(x, (len(rows), 1))
    elif layout == 1:
        pts = full = np.array([rng.permutation(x) for _ in rows])
    else:
        pts, full = float(x[0]), np.full((len(rows), 1), x[0])
    got, want = np.asarray(ens.pdf(pts)), np.asarray(twin.pdf(pts))
    tol = 1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width())
    ctx.close("pdf", got, want, rtol=1e-7, atol=tol, msg="%s: pdf and that of an ensemble built with %s" % (lab, name))
    if name in MODEL:
        model = np.array([case.ref.pdf(rows[k], full[k], name) for k in range(len(rows))])
        ctx.close("model", got, model, rtol=1e-7, atol=tol, msg="%s: pdf and the documented %s" % (lab, name))
    # cdf and ppf do not depend on the constructor
    base = fresh(case, rows, "piecewise_linear")
    ctx.close("cdf", ens.cdf(pts), base.cdf(pts), rtol=1e-9, atol=1e-11, msg="%s: cdf with %s" % (lab, name))
    q = rng.uniform(0.05, 0.95, size=3)
    ctx.close("ppf", ens.ppf(q), base.ppf(q), rtol=1e-9, atol=1e-9 * case.width(), msg="%s: ppf with %s" % (lab, name))
    ctx.ev("judged")
    ctx.seen("history", name, "n1" if len(rows) == 1 else "n", ["row", "table", "scalar"][layout])


def history(ctx):
    """Switches, evaluations and copies in any order"""
    rng = ctx.rng
    case = gen_quant(rng, ctor=NAMES[ctx.index % 4])
    ens = case.make()
    name = str(case.meta.get("pdf_constructor_name", "piecewise_linear"))
    lives = [Live(ens, np.arange(case.npdf), name)]
    trail = []
    for _ in range(int(rng.integers(5, 11))):
        live = lives[int(rng.integers(len(lives)))]
        oper = str(rng.choice(["switch", "switch", "switch", "judge", "judge", "same", "unknown", "slice", "copy", "append", "file", "gridded", "update", "reject", "concat", "rvs"]))
        trail.append(oper)
        ctx.note(oper, live.name, "rows", len(live.rows))
        if oper == "switch":
            new = str(rng.choice(NAMES))
            live.ens.dist.pdf_constructor_name = "".join(list(new)) if rng.random() < 0.5 else new
            live.name = new
        elif oper == "same":
            live.ens.dist.pdf_constructor_name = live.ens.dist.pdf_constructor_name
        elif oper == "unknown":
            for bad in ("linear", "", None, 3, "piecewise_linear ", b"piecewise_linear"):
                def put(b=bad):
                    live.ens.dist.pdf_constructor_name = b

                ctx.raises("unknown", ValueError, put, "the constructor %r" % (bad,))
        elif oper == "slice":
            keep = rng.integers(0, len(live.rows), size=int(rng.integers(1, 5)))
            if rng.random() < 0.3:
                lives.append(Live(live.ens[int(keep[0])], live.rows[keep[:1]], live.name))
            else:
                lives.append(Live(live.ens[keep], live.rows[keep], live.name))
        elif oper == "copy":
            func = [copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v)), lambda v: v[np.arange(v.npdf)]][int(rng.integers(3))]
            lives.append(Live(func(live.ens), live.rows, live.name))
        elif oper == "append":
            more = rng.integers(0, case.npdf, size=int(rng.integers(1, 4)))
            live.ens.append(fresh(case, more, live.name))
            live.rows = np.concatenate([live.rows, more])
        elif oper == "concat":
            more = rng.integers(0, case.npdf, size=int(rng.integers(1, 4)))
            out = qp.concatenate([fresh(case, more, live.name), live.ens])
            lives.append(Live(out, np.concatenate([more, live.rows]), live.name))
        elif oper == "reject":
            other = NAMES[(NAMES.index(live.name) + 1) % 4]
            ctx.raises("mixed", (KeyError, ValueError), lambda: live.ens.append(fresh(case, [0], other)), "appending PDFs with another constructor")
        elif oper == "file":
            path = os.path.join(ctx.scratch, "q%i.%s" % (len(trail), str(rng.choice(["hdf5", "fits", "pq"]))))
            live.ens.write_to(path)
            lives.append(Live(qp.read(path), live.rows, live.name))
        elif oper == "gridded":
            grid = np.sort(case.points(rng, 4))
            got = live.ens.gridded(grid)[1]
            want = fresh(case, live.rows, live.name).pdf(grid)
            ctx.close("gridded", got, want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width()), msg="%s after %s: gridded with %s" % (case.label, trail, live.name))
        elif oper == "update":
            live.rows = rng.integers(0, case.npdf, size=int(rng.integers(1, 5)))
            if rng.random() < 0.5:
                new = str(rng.choice(NAMES))
                live.ens.update(dict(quants=case.ref.q0.copy(), locs=case.ref.l0[live.rows], pdf_constructor_name=new))
                live.name = new
            else:
                live.ens.update_objdata(dict(locs=case.ref.l[live.rows]))
        elif oper == "rvs":
            live.ens.rvs(size=2, random_state=1)
        judge(ctx, case, live, "%s after %s" % (case.label, " ".join(trail)))
        if len(lives) > 6:
            del lives[int(rng.integers(0, 3))]
    for live in lives:
        judge(ctx, case, live, "%s at the end" % case.label)


def constructors(ctx):
    """The constructors used on their own"""
    rng = ctx.rng
    case = gen_quant(rng, ctor=NAMES[ctx.index % 4])
    name = case.extra["ctor"]
    ens = fresh(case, np.arange(case.npdf), name)
    ctor = ens.dist.pdf_constructor
    x = case.points(rng, int(rng.integers(2, 8)))
    for _ in range(3):
        rows = np.sort(rng.permutation(case.npdf)[: int(rng.integers(1, case.npdf + 1))])
        arg = rows if name in ("cdf_spline_derivative", "dual_spline_average") else rows.reshape(-1, 1)
        got = np.asarray(ctor.construct_pdf(x, arg)).reshape(len(rows), len(x))
        want = np.asarray(fresh(case, rows, name).pdf(x))
        tol = 1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width())
        ctx.close("rows", got, want, rtol=1e-7, atol=tol, msg="%s: construct_pdf of the rows %s" % (case.label, rows))
    if name in ("cdf_spline_derivative", "dual_spline_average"):
        want = np.asarray(ens.pdf(x))
        got = ctor.construct_pdf(x)
        ctx.close("all", got, want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width()), msg="%s: construct_pdf of all rows" % case.label)
    ctor.prepare_constructor()
    want = np.asarray(fresh(case, np.arange(case.npdf), name).pdf(x))
    ctx.close("again", ens.pdf(x), want, rtol=1e-7, atol=1e-9 * np.max(np.abs(want)) + eval_tol(want, case.width()), msg="%s: after preparing again" % case.label)
    ctx.seen("constructors", name, "n1" if case.npdf == 1 else "n")


def birth(ctx):
    """The name given when the ensemble is built, in the forms in which it is stored"""
    rng = ctx.rng
    case = gen_quant(rng)
    name = NAMES[ctx.index % 4]
    for form in (name, name.encode(), np.array(name), np.array([name.encode()]), np.bytes_(name), np.str_(name)):
        ens = qp.Ensemble(qp.quant, data=dict(quants=case.ref.q0, locs=case.ref.l0, pdf_constructor_name=form))
        judge(ctx, case, Live(ens, np.arange(case.npdf), name), "%s built with %r" % (case.label, form))
    ctx.raises("birth", (KeyError, ValueError), lambda: qp.Ensemble(qp.quant, data=dict(quants=case.ref.q0, locs=case.ref.l0, pdf_constructor_name="other")), "building with an unknown constructor")
    default = qp.Ensemble(qp.quant, data=dict(quants=case.ref.q0, locs=case.ref.l0))
    judge(ctx, case, Live(default, np.arange(case.npdf), "piecewise_linear"), "%s built without a name" % case.label)
    ctx.seen("birth", name)


WORKLOADS = [("padding", padding), ("history", history), ("constructors", constructors), ("birth", birth)]
_ = RefQuant
