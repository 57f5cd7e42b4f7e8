"""Runtime monitors: wrappers around the public API that judge every call of a session.

The wrappers are installed on qp.Ensemble from here (no change in the code under test).
Only the outermost call is judged, so that what qp does internally is free.

 * eval  : a result of pdf/cdf/ppf/... is spot-checked against a fresh one-row ensemble at one point
 * args  : fingerprints of all arguments (and of the receiver, for calls that are not updates)
           are equal before and after the call
"""
import functools
import hashlib
import os

import numpy as np

import qp
from gens import ALL_KINDS, GENS, gen_ancil
from lib import eval_tol, pit_samples, rebuild

EVAL = ["pdf", "logpdf", "cdf", "logcdf", "ppf", "sf", "logsf", "isf"]
READ = EVAL + [
    "gridded", "mode", "rvs", "stats", "median", "mean", "var", "std", "moment", "interval", "histogramize",
    "integrate", "moment_partial", "convert_to", "write_to", "build_tables", "metadata", "objdata", "__getitem__",
    "initializeHdf5Write", "writeHdf5Chunk", "finalizeHdf5Write",
]
UPDATE = ["update", "update_objdata", "set_ancil", "add_to_ancil", "append"]


# the functions themselves: fingerprints are not part of what a session observes
ENS = dict(metadata=qp.Ensemble.metadata, objdata=qp.Ensemble.objdata)


def fingerprint(obj, depth=0):
    """A hash of the observable content of an argument"""
    hsh = hashlib.blake2b(digest_size=12)
    _feed(hsh, obj, depth)
    return hsh.hexdigest()


def _feed(hsh, obj, depth):
    if depth > 6:
        return
    if isinstance(obj, qp.Ensemble):
        hsh.update(b"E")
        hsh.update(obj.gen_class.__name__.encode())
        _feed(hsh, ENS["metadata"](obj), depth + 1)
        _feed(hsh, ENS["objdata"](obj), depth + 1)
        _feed(hsh, obj.ancil, depth + 1)
        hsh.update(str(obj.npdf).encode())
    elif isinstance(obj, dict):
        for key in sorted(obj, key=str):
            hsh.update(str(key).encode())
            _feed(hsh, obj[key], depth + 1)
    elif isinstance(obj, (list, tuple)):
        hsh.update(b"L%i" % len(obj))
        for val in obj:
            _feed(hsh, val, depth + 1)
    elif isinstance(obj, np.ndarray):
        hsh.update(str((obj.shape, obj.dtype.str)).encode())
        if obj.dtype.kind == "O":
            for val in obj.ravel():
                _feed(hsh, val, depth + 1)
        else:
            hsh.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (int, float, complex, str, bytes, bool, np.generic)) or obj is None:
        hsh.update(repr(obj).encode())


class Monitor:
    """Installs and removes the wrappers, and records what they saw"""

    def __init__(self, ctx, judge):
        self.ctx = ctx
        self.judge = judge
        self.depth = 0
        self.saved = {}
        self.busy = False
        self.width = 1e-3

    def __enter__(self):
        for name in READ + UPDATE:
            orig = getattr(qp.Ensemble, name, None)
            if orig is None:
                continue
            self.saved[name] = orig
            setattr(qp.Ensemble, name, self._wrap(name, orig))
        return self

    def __exit__(self, *exc):
        for name, orig in self.saved.items():
            setattr(qp.Ensemble, name, orig)

    def _wrap(self, name, orig):
        @functools.wraps(orig)
        def wrapper(ens, *args, **kwds):
            if self.depth or self.busy:
                return orig(ens, *args, **kwds)
            self.depth += 1
            try:
                return self._judged(name, orig, ens, args, kwds)
            finally:
                self.depth -= 1

        return wrapper

    def call(self, name, func, *args, **kwds):
        """Call a function of the package (not a method of Ensemble) under the same monitor"""
        self.depth += 1
        try:
            return self._judged(name, func, None, args, kwds)
        finally:
            self.depth -= 1

    def _judged(self, name, orig, ens, args, kwds):
        ctx = self.ctx
        ctx.ev("call:" + name)
        do_args = "args" in self.judge
        if do_args:
            before = [fingerprint(a) for a in args], {k: fingerprint(v) for k, v in kwds.items()}
            mine = fingerprint(ens) if ens is not None and name in READ else None
        out = orig(ens, *args, **kwds) if ens is not None else orig(*args, **kwds)
        label = ens.gen_class.name if ens is not None else name
        if do_args:
            after = [fingerprint(a) for a in args], {k: fingerprint(v) for k, v in kwds.items()}
            ctx.true("arguments", before == after, "%s.%s modified its arguments" % (label, name))
            if mine is not None:
                ctx.true("receiver", fingerprint(ens) == mine, "%s.%s modified the ensemble it was called on" % (label, name))
            ctx.seen(label, name)
        if "eval" in self.judge and name in EVAL and args:
            self.busy = True
            try:
                self._spot(name, ens, args[0], out)
            finally:
                self.busy = False
        return out

    def _spot(self, name, ens, x, out):
        """Compare two entries of a result with scalar evaluations of one-row ensembles"""
        ctx = self.ctx
        kind = ens.gen_class.name
        shape = np.broadcast_shapes(np.shape(x) if np.ndim(x) else (1,), (ens.npdf, 1))
        if not ctx.true("shape", np.shape(out) == shape, "%s.%s: shape %s, expected %s" % (kind, name, np.shape(out), shape)):
            return
        if kind == "mixmod" and name in ("ppf", "isf"):
            return
        full = np.broadcast_to(np.asarray(x, float), shape)
        for _ in range(2):
            i, j = int(ctx.rng.integers(shape[0])), int(ctx.rng.integers(shape[1]))
            one = rebuild(ens, rows=[i])
            want = np.asarray(getattr(one, name)(float(full[i, j]))).ravel()[0]
            got = out[i, j]
            if name.startswith("log"):
                want, got = np.exp(want), np.exp(got)
            tol = 1e-12 if name in ("cdf", "sf", "logcdf", "logsf", "logpdf") else float(eval_tol(out, self.width))
            if name in ("ppf", "isf"):
                tol = 1e-7 * (1 + abs(float(want)))
            ctx.ev("cells")
            ctx.seen(kind, name, np.ndim(x), "n1" if ens.npdf == 1 else "n")
            ctx.close("value", got, want, rtol=1e-8, atol=tol, msg="%s.%s row %i at %r in a session" % (kind, name, i, float(full[i, j])), x=x)


# ---------------------------------------------------------------------------
# sessions


class Live:
    """An ensemble in use, with what it has to look like"""

    def __init__(self, ens, case, rows):
        self.ens = ens
        self.case = case
        self.rows = np.asarray(rows)


def session(ctx, judge):
    """A random session of API calls under the monitor"""
    rng = ctx.rng
    kind = ALL_KINDS[ctx.index % len(ALL_KINDS)]
    case = GENS[kind](rng)
    slow = case.kind == "spline"
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.7 else None
    data = case.data()
    vault = [("constructor data", data, fingerprint(data)), ("ancil", anc, fingerprint(anc))]
    mon = Monitor(ctx, judge)
    mon.width = case.width()
    with mon:
        ens = mon.call("Ensemble()", qp.Ensemble, case.gen, data, anc)
        ctx.true("arguments", fingerprint(data) == vault[0][2], "building a %s ensemble modified its data" % case.label)
        live = [Live(ens, case, np.arange(case.npdf))]
        nops = int(rng.integers(8, 15))
        for iop in range(nops):
            lv = live[int(rng.integers(len(live)))]
            ops = ["eval", "eval", "eval", "gridded", "slice", "stats", "hist", "rvs", "convert", "append", "concat", "write", "metric", "iterate", "ancil"]
            if kind == "quant":
                ops += ["switch", "switch"]
            oper = str(rng.choice(ops))
            ctx.note(iop, oper, "on", lv.ens.npdf, "rows")
            _do(ctx, mon, oper, lv, live, vault, slow)
        # nothing that was handed over has changed since
        for name, obj, hsh in vault:
            ctx.true("later-change", fingerprint(obj) == hsh, "%s was modified during the session (%s)" % (name, case.label))
        # every ensemble still is what it was made of
        xs = np.sort(case.points(rng, 5))
        mon.busy = True
        for lv in live:
            want = lv.case.subset(lv.rows).make()
            if kind == "quant":
                want.dist.pdf_constructor_name = lv.ens.dist.pdf_constructor_name
            got_pdf, want_pdf = lv.ens.pdf(xs), want.pdf(xs)
            ctx.close("final-pdf", got_pdf, want_pdf, rtol=1e-8, atol=eval_tol(want_pdf, case.width()), msg="%s: pdf at the end of the session" % case.label)
            got_cdf, want_cdf = lv.ens.cdf(xs), want.cdf(xs)
            ctx.close("final-cdf", got_cdf, want_cdf, rtol=1e-8, atol=1e-11, msg="%s: cdf at the end of the session" % case.label)
        mon.busy = False


def _points(rng, case, npdf):
    style = rng.integers(0, 4)
    if style == 0:
        return float(case.points(rng, 1)[0])
    if style == 1:
        return case.points(rng, int(rng.choice([1, 2, npdf, npdf + 1, 6])))
    if style == 2:
        return case.points(rng, npdf).reshape(npdf, 1)
    m = int(rng.choice([2, npdf]))
    return case.points(rng, npdf * m).reshape(npdf, m)


def _do(ctx, mon, oper, lv, live, vault, slow):
    rng, ens, case = ctx.rng, lv.ens, lv.case
    npdf = ens.npdf
    if oper == "eval":
        name = str(rng.choice(EVAL))
        if slow and name in ("ppf", "isf"):
            name = "pdf"
        x = _points(rng, case, npdf)
        if slow and name in ("logcdf", "logsf") and np.ndim(x) and npdf * np.shape(x)[-1] > 4000:
            name = "pdf"
        if name in ("ppf", "isf"):
            lo, hi = case.lo - 0.5 * case.width(), case.hi + 0.5 * case.width()
            x = (x - lo) / (hi - lo)
        x = np.clip(x, 0.01, 0.99) if name in ("ppf", "isf") else x
        getattr(ens, name)(x)
        vault.append(("points", x, fingerprint(x)))
    elif oper == "gridded":
        grid = np.sort(case.points(rng, int(rng.choice([3, npdf + 1]))))
        vault.append(("grid", grid, fingerprint(grid)))
        ens.gridded(grid)
        ens.mode(grid)
    elif oper == "slice":
        key, rows = random_key(rng, npdf)
        live.append(Live(ens[key], case, lv.rows[rows]))
    elif oper == "stats":
        if slow:
            return
        ens.median()
        ens.interval(0.8)
        if case.kind in ("mixmod", "interp_irregular", "quant"):
            return  # numerical integration, seconds per PDF
        for name in ("mean", "var", "std"):
            getattr(ens, name)()
        ens.moment(int(rng.integers(1, 4)))
        ens.stats(moments="mv")
    elif oper == "hist":
        bins = np.sort(case.points(rng, 4))
        vault.append(("bins", bins, fingerprint(bins)))
        ens.histogramize(bins)
        lims = case.points(rng, npdf).reshape(npdf, 1)
        ens.integrate((lims, lims + 0.1 * case.width()))
    elif oper == "rvs":
        if not slow:
            ens.rvs(size=int(rng.integers(1, 6)), random_state=int(rng.integers(1000)))
    elif oper == "convert":
        grid = np.linspace(case.lo, case.hi, 7)
        vault.append(("grid", grid, fingerprint(grid)))
        target = str(rng.choice(["hist", "interp", "interp_irregular"]))
        kwds = dict(bins=grid) if target == "hist" else dict(xvals=grid)
        try:
            ens.convert_to(qp.instance()[target], **kwds)
            mon.call("convert", qp.convert, ens, target, **kwds)
        except (ValueError, ZeroDivisionError):
            pass
    elif oper == "append":
        # on a copy, so that the original has to stay as it is
        rows = rng.integers(0, npdf, size=int(rng.integers(1, 4)))
        first, other = ens[np.arange(npdf)], ens[rows]
        first.append(other)
        live.append(Live(first, case, np.concatenate([lv.rows, lv.rows[rows]])))
        live.append(Live(other, case, lv.rows[rows]))
    elif oper == "concat":
        rows = rng.integers(0, npdf, size=int(rng.integers(1, 4)))
        both = [ens, ens[rows]]
        out = mon.call("concatenate", qp.concatenate, both)
        live.append(Live(out, case, np.concatenate([lv.rows, lv.rows[rows]])))
    elif oper == "write":
        path = os.path.join(ctx.scratch, "s%i.hdf5" % int(rng.integers(1e9)))
        ens.write_to(path)
        if rng.random() < 0.5:
            live.append(Live(mon.call("read", qp.read, path), case, lv.rows))
        else:
            for start, end, part in qp.iterator(path, chunk_size=2):
                live.append(Live(part, case, lv.rows[start:end]))
                if len(live) > 12:
                    break
        os.remove(path)
    elif oper == "metric":
        lims = (float(case.lo), float(case.hi))
        dx = case.width() / 12.0
        other = ens[np.arange(npdf)]
        truth = rng.uniform(case.lo + 0.01 * case.width(), case.hi - 0.01 * case.width(), size=npdf)
        vault.append(("truth", truth, fingerprint(truth)))
        mon.call("calculate_rmse", qp.metrics.calculate_rmse, ens, other, lims, dx)
        mon.call("calculate_kld", qp.metrics.calculate_kld, ens, other, lims, dx)
        mon.call("calculate_moment", qp.metrics.calculate_moment, ens, 1, lims, dx)
        mon.call("calculate_brier", qp.metrics.calculate_brier, ens, truth, lims, dx)
        mon.call("calculate_outlier_rate", qp.metrics.calculate_outlier_rate, ens, lims[0], lims[1])
        grid = np.linspace(lims[0], lims[1], 9)
        mon.call("cdeloss", qp.metrics.CDELossMetric(eval_grid=grid).evaluate, ens, truth)
        if npdf > 3 and not slow:
            mon.call("PIT samples", pit_samples, ens, truth)
            mon.call("ks", qp.metrics.KSMetric(num_samples=5, _random_state=3).evaluate, ens, other)
    elif oper == "iterate":
        for k, one in enumerate(ens):
            if k < 2:
                live.append(Live(one, case, lv.rows[k : k + 1]))
    elif oper == "ancil":
        part = ens[np.arange(npdf)]
        extra = dict(extra=rng.normal(size=npdf))
        vault.append(("added ancil", extra, fingerprint(extra)))
        part.add_to_ancil(extra)
        part.add_to_ancil(dict(extra=np.zeros(npdf)))
        live.append(Live(part, case, lv.rows))
    elif oper == "switch":
        part = ens[np.arange(npdf)]
        part.dist.pdf_constructor_name = str(rng.choice(["piecewise_linear", "cdf_spline_derivative", "dual_spline_average"]))
        live.append(Live(part, case, lv.rows))
    if len(live) > 14:
        del live[1 : len(live) - 12]


def random_key(rng, npdf):
    """A slicing key, and the rows it selects"""
    style = int(rng.integers(0, 7))
    rows = np.arange(npdf)
    if style == 0:
        key = int(rng.integers(-npdf, npdf))
        return key, rows[[key]]
    if style == 1:
        start = int(rng.integers(0, npdf))
        key = slice(start, start + int(rng.integers(1, npdf + 2)))
    elif style == 2:
        key = slice(None, None, int(rng.choice([-1, 1, 2])))
    elif style == 3:
        key = rng.integers(-npdf, npdf, size=int(rng.integers(1, 5)))
    elif style == 4:
        key = [int(v) for v in rng.integers(0, npdf, size=int(rng.integers(1, 5)))]
    elif style == 5:
        mask = rng.random(npdf) < 0.6
        mask[int(rng.integers(npdf))] = True
        key = mask
    else:
        key = slice(int(rng.integers(-npdf, 0)), None)
    return key, rows[key]
