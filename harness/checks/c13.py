"""C13: ensemble state follows its history of updates; rejected changes have no effect.

A model holds the constructor data and ancillary data of the accepted operations; after
every step the live ensemble is compared with a fresh one built from the model.
"""
import numpy as np

import qp
from common import deep
from gens import GENS, gen_ancil, gen_case
from lib import close_vals, snapshot, state_equal

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")
ANY = (Exception,)


class Model:
    """What the ensemble has to be"""

    def __init__(self, case, anc):
        self.gen, self.kind, self.label = case.gen, case.kind, case.label
        self.anc = deep(anc)
        self.load(case)

    def load(self, case):
        self.meta, self.obj = deep(case.meta), deep(case.obj)
        self.lo, self.hi, self.label = case.lo, case.hi, case.label
        if self.kind == "quant":
            # padded, as the metadata are
            self.meta["quants"], self.obj["locs"] = np.array(case.ref.q), np.array(case.ref.l)

    @property
    def npdf(self):
        return len(next(iter(self.obj.values())))

    def data(self):
        out = deep(self.meta)
        out.update(deep(self.obj))
        return out

    def fresh(self):
        return qp.Ensemble(self.gen, data=self.data(), ancil=deep(self.anc))


def compatible(rng, model, case, npdf):
    """New object data that go with the metadata of the model"""
    rows = rng.integers(0, case.npdf, size=npdf)
    obj = {k: np.array(v[rows]) for k, v in case.obj.items()}
    if model.kind == "quant":
        # the metadata hold the padded quantiles
        obj["locs"] = np.array(case.ref.l[rows])
    for key in ("pdfs", "yvals"):
        if key in obj:
            obj[key] = obj[key] * rng.uniform(0.5, 2.0, size=obj[key].shape)
    for key in ("loc", "means", "locs"):
        if key in obj:
            obj[key] = obj[key] + rng.uniform(-0.2, 0.2, size=(npdf, 1)) * (model.hi - model.lo)
    return obj


def bad_ancil(rng, npdf):
    """Ancillary data of the wrong length, possibly in one column only"""
    anc = gen_ancil(rng, npdf)
    wrong = int(rng.choice([npdf + 1, 2 * npdf, max(npdf - 1, 0) if npdf != 2 else 3, npdf + 7]))
    if wrong == 1:
        wrong = npdf + 2
    where = str(rng.choice(list(anc)))
    anc[where] = np.zeros((wrong,) + np.shape(anc[where])[1:])
    if rng.random() < 0.3:
        anc["zz"] = np.arange(npdf + 2)
    return anc


def bad_data(rng, model):
    """Constructor data that can not be built"""
    data = model.data()
    if model.kind == "hist":
        data["pdfs"] = data["pdfs"][:, :-1]
    elif model.kind in ("interp", "interp_irregular"):
        data["yvals"] = data["yvals"][:, :-1]
    elif model.kind == "packed_interp":
        data["ypacked"] = data["ypacked"][:, :-1]
    elif model.kind == "quant":
        if rng.random() < 0.5:
            data["pdf_constructor_name"] = "no such constructor"
        else:
            data["locs"] = data["locs"][:, :-1]
    elif model.kind == "mixmod":
        data["weights"] = -data["weights"] - 0.1
    else:
        data["no_such_parameter"] = 3.0
    return data


def check(ctx, ens, model, step, lab, full=True):
    rng = ctx.rng
    want_ens = model.fresh()
    w = model.hi - model.lo
    xs = np.sort(rng.uniform(model.lo - 0.1 * w, model.hi + 0.1 * w, size=int(rng.choice([3, model.npdf]))))
    if model.kind == "quant":
        mids = 0.5 * (model.obj["locs"][:, 1:] + model.obj["locs"][:, :-1])
        bad = np.concatenate([mids.ravel(), model.obj["locs"].ravel()])
        xs = xs[np.min(np.abs(xs[:, None] - bad), axis=1) > 1e-6 * w]
        if not len(xs):
            return
    qs = rng.uniform(0.05, 0.95, size=2) if full and model.kind != "spline" else None
    got, want = snapshot(ens, xs, qs), snapshot(want_ens, xs, qs)
    this = "%s: after %s (step %i)" % (model.label, lab, step)
    exact = model.kind not in RENORM
    state_equal(ctx, "state", got, want, this, exact=exact, rtol=1e-12)
    if model.anc is not None and ens.ancil is not None:
        for key, val in model.anc.items():
            ctx.true("ancil-dtype", np.asarray(ens.ancil[key]).dtype == val.dtype, "%s: dtype of ancil %s" % (this, key))
    style = int(rng.integers(0, 4))
    if style == 0:
        close_vals(ctx, "gridded", ens.gridded(xs)[1], want["pdf"], "%s: gridded" % this, width=w)
    elif style == 1:
        tables = ens.build_tables()
        ctx.true("tables", set(tables) == {"meta", "data"} | ({"ancil"} if model.anc is not None else set()), "%s: tables %s" % (this, sorted(tables)))
        for key, val in want["obj"].items():
            ctx.close("tables", tables["data"][key], val, rtol=1e-12, atol=1e-14 * (np.abs(val).max() if val.size else 1), msg="%s: build_tables %s" % (this, key))
    elif style == 2:
        i = int(rng.integers(-model.npdf, model.npdf))
        close_vals(ctx, "slice", ens[i].pdf(xs), want["pdf"][[i]], "%s: ens[%i]" % (this, i), width=w)
        if model.anc is not None and "idx" in model.anc:
            ctx.equal("slice-ancil", ens[i].ancil["idx"], model.anc["idx"][[i]], "%s: ancil of ens[%i]" % (this, i))
    else:
        ctx.true("ndim", ens.shape == want_ens.shape and ens.ndim == want_ens.ndim and ens.kwds.keys() == want_ens.kwds.keys(), "%s: shape %s ndim %s" % (this, ens.shape, ens.ndim))
    ctx.ev("states")


def history(ctx):
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.6 else None
    model = Model(case, anc)
    ens = case.make(ancil=deep(anc))
    ops = []
    nstep = int(rng.integers(4, 10))
    for step in range(nstep):
        oper = str(rng.choice(["update", "objdata", "part", "set_ancil", "add", "append", "slice", "reject", "reject", "reject", "use"] + (["switch"] * 2 if case.kind == "quant" else [])))
        lab = oper
        if oper == "update":
            # other metadata too: a new data set of the same representation
            if rng.random() < 0.5 and case.kind in ("hist", "interp", "irr", "interp_irregular", "mixmod", "quant", "spline"):
                new = GENS["irr" if case.kind == "interp_irregular" else case.kind](rng)
            else:
                new = case.subset(rng.integers(0, case.npdf, size=int(rng.integers(1, 6))))
            nanc = gen_ancil(rng, new.npdf) if rng.random() < 0.5 else None
            ens.update(new.data(), deep(nanc)) if nanc is not None else ens.update(new.data())
            model.load(new)
            model.anc = nanc
            case = new
        elif oper == "objdata":
            npdf = int(rng.choice([model.npdf, 1, 5]))
            obj = compatible(rng, model, case, npdf)
            nanc = gen_ancil(rng, npdf) if rng.random() < 0.5 else None
            ens.update_objdata(deep(obj), deep(nanc))
            model.obj, model.anc = obj, nanc
        elif oper == "part":
            # one of the columns, for the same PDFs
            obj = compatible(rng, model, case, model.npdf)
            key = str(rng.choice(list(obj)))
            if case.kind in ("interp_irregular", "spline", "packed_interp") and key in ("xvals", "splx", "spln", "sply"):
                key = "yvals" if case.kind == "interp_irregular" else "sply"
            if case.kind == "scipy" or key in ("a", "b", "c", "s"):
                key = "loc"
            nanc = deep(model.anc) if rng.random() < 0.5 else None
            ens.update_objdata({key: np.array(obj[key])}, nanc)
            model.obj[key], model.anc = obj[key], deep(nanc)
            lab = "update_objdata(%s)" % key
        elif oper == "set_ancil":
            nanc = gen_ancil(rng, model.npdf) if rng.random() < 0.7 else None
            ens.set_ancil(deep(nanc))
            model.anc = nanc
        elif oper == "add":
            extra = {str(rng.choice(["z", "new", "idx"])): rng.normal(size=model.npdf)}
            if "idx" in extra:
                extra = dict(idx=rng.integers(0, 100, size=model.npdf))
            ens.add_to_ancil(deep(extra))
            model.anc = dict(model.anc or {}, **extra)
        elif oper == "append":
            rows = rng.integers(0, model.npdf, size=int(rng.integers(1, 4)))
            other = model.fresh()[rows]
            if other.ancil is not None and rng.random() < 0.3:
                other.set_ancil(None)
            ens.append(other)
            model.obj = {k: np.concatenate([v, v[rows]]) for k, v in model.obj.items()}
            model.anc = None if other.ancil is None else {k: np.concatenate([v, v[rows]]) for k, v in model.anc.items()}
        elif oper == "slice":
            rows = rng.permutation(model.npdf)[: max(1, int(rng.integers(model.npdf + 1)))]
            ens = ens[rows]
            model.obj = {k: v[rows] for k, v in model.obj.items()}
            model.anc = None if model.anc is None else {k: v[rows] for k, v in model.anc.items()}
        elif oper == "switch":
            name = str(rng.choice(["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]))
            ens.dist.pdf_constructor_name = name
            model.meta["pdf_constructor_name"] = name
            lab = "switch to " + name
        elif oper == "use":
            grid = np.linspace(model.lo, model.hi, 5)
            ens.gridded(grid)
            ens.pdf(grid)
            ens.cdf(grid[:2])
        else:
            lab = "rejected " + reject(ctx, ens, model, case)
        ops.append(lab)
        ctx.note("step", step, lab)
        ctx.ev("ops")
        check(ctx, ens, model, step, lab, full=step == nstep - 1)
        ctx.seen(model.kind, lab.split("(")[0])


def reject(ctx, ens, model, case):
    """An operation that has to be rejected; the caller checks that nothing changed"""
    rng = ctx.rng
    how = int(rng.integers(0, 7))
    if case.kind == "spline" and how == 3:
        how = 0
    if how == 0:
        bad = bad_ancil(rng, model.npdf)
        ctx.raises("reject", ANY, lambda: ens.set_ancil(bad), "%s: set_ancil of %s for %i PDFs" % (model.label, {k: np.shape(v) for k, v in bad.items()}, model.npdf))
        return "set_ancil"
    if how == 1:
        bad = bad_ancil(rng, model.npdf)
        ctx.raises("reject", ANY, lambda: ens.add_to_ancil(bad), "%s: add_to_ancil of %s for %i PDFs" % (model.label, {k: np.shape(v) for k, v in bad.items()}, model.npdf))
        return "add_to_ancil"
    if how == 2:
        new = case.subset(rng.integers(0, case.npdf, size=int(rng.integers(1, 6))))
        bad = bad_ancil(rng, new.npdf)
        ctx.raises("reject", ANY, lambda: ens.update(new.data(), bad), "%s: update with %s for %i PDFs" % (model.label, {k: np.shape(v) for k, v in bad.items()}, new.npdf))
        return "update (ancil)"
    if how == 3:
        data = bad_data(rng, model)
        ctx.raises("reject", ANY, lambda: ens.update(data), "%s: update with bad data" % model.label)
        return "update (data)"
    if how == 4:
        npdf = int(rng.choice([model.npdf, 1, 5]))
        obj = compatible(rng, model, case, npdf)
        bad = bad_ancil(rng, npdf)
        ctx.raises("reject", ANY, lambda: ens.update_objdata(obj, bad), "%s: update_objdata with ancil of the wrong length" % model.label)
        return "update_objdata (ancil)"
    if how == 5:
        kind = "interp" if case.kind != "interp" else "hist"
        other = GENS[kind](rng).make()
        ctx.raises("reject", ANY, lambda: ens.append(other), "%s: append of a %s ensemble" % (model.label, kind))
        return "append (class)"
    # appending one with other columns
    if model.anc is None:
        return "nothing"
    other = model.fresh()
    other.set_ancil(dict(other=np.zeros(model.npdf)))
    ctx.raises("reject", ANY, lambda: ens.append(other), "%s: append with other ancil columns" % model.label)
    return "append (ancil)"


def at_birth(ctx):
    """Ancillary data of the wrong length are rejected when the ensemble is built"""
    rng = ctx.rng
    case = gen_case(ctx)
    bad = bad_ancil(rng, case.npdf)
    ctx.raises("reject", ANY, lambda: case.make(ancil=bad), "%s: built with ancil %s for %i PDFs" % (case.label, {k: np.shape(v) for k, v in bad.items()}, case.npdf))
    ens = case.make()
    ctx.true("none", ens.ancil is None, "%s: ancil of an ensemble without is %s" % (case.label, ens.ancil))
    ctx.seen("birth", case.label)


WORKLOADS = [("history", history), ("at_birth", at_birth)]
