"""C30: the factory makes what is asked for, and representations that users add work like the built-in ones."""
import io as pyio
import os

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import qp  # noqa: E402
from common import same  # noqa: E402
from gens import ALL_KINDS, GENS, gen_ancil, gen_case  # noqa: E402
from lib import close_vals, dict_equal, snapshot, state_equal, subranges  # noqa: E402
from qp import dict_utils  # noqa: E402
from qp.factory import Factory  # noqa: E402
from qp.pdf_gen import Pdf_rows_gen  # noqa: E402

FACT = qp.factory.instance()
SHIFTS = np.array([-1.0, 0.0, 2.5])


def tri_pdf(c, h, shifts, x):
    """Triangles of half width h, at c + h * shifts, with equal weights"""
    u = (np.expand_dims(x, -1) - np.expand_dims(c, -1)) / np.expand_dims(h, -1) - shifts
    return np.mean(np.clip(1.0 - np.abs(u), 0.0, None), axis=-1) / h


def tri_cdf(c, h, shifts, x):
    u = (np.expand_dims(x, -1) - np.expand_dims(c, -1)) / np.expand_dims(h, -1) - shifts
    u = np.clip(u, -1.0, 1.0)
    return np.mean(np.where(u < 0, 0.5 * (1 + u) ** 2, 1 - 0.5 * (1 - u) ** 2), axis=-1)


class TriBase(Pdf_rows_gen):
    """A representation as a user would add it: made as docs/contributing.rst tells"""

    version = 3

    def __init__(self, centers, widths, shifts, *args, **kwargs):
        self._centers = np.reshape(centers, (np.shape(centers)[0], -1))
        self._widths = np.reshape(widths, (np.shape(widths)[0], -1))
        self._shifts = np.atleast_1d(np.asarray(shifts, float))
        self._used = kwargs.pop("used", None)
        kwargs["shape"] = self._centers.shape[:-1]
        super().__init__(*args, **kwargs)
        self._addmetadata("shifts", self._shifts)
        self._addobjdata("centers", self._centers)
        self._addobjdata("widths", self._widths)

    def _pars(self, x, row):
        row = np.asarray(row)
        c, h = self._centers[row, 0], self._widths[row, 0]
        x, c, h = np.broadcast_arrays(x, c, h)
        return c, h, self._shifts, x

    def _get_support(self, row):
        row = np.asarray(row)
        c, h = self._centers[row, 0], self._widths[row, 0]
        return c + h * (self._shifts[0] - 1), c + h * (self._shifts[-1] + 1)

    def _updated_ctor_param(self):
        dct = super()._updated_ctor_param()
        dct.update(centers=self._centers, widths=self._widths, shifts=self._shifts, used=self._used)
        return dct

    @classmethod
    def get_allocation_kwds(cls, npdf, **kwargs):
        return dict(centers=((npdf, 1), "f8"), widths=((npdf, 1), "f8"))

    @classmethod
    def create_marked(cls, **kwds):
        obj, extra = cls.create_gen(used="marked", **kwds)
        return obj.freeze(**extra)

    @classmethod
    def read_old(cls, data):
        """Files of version 1 hold the edges of the central triangle"""
        out = dict(data)
        lo, hi = out.pop("lo"), out.pop("hi")
        out["centers"], out["widths"] = 0.5 * (lo + hi), 0.5 * (hi - lo)
        return out

    @classmethod
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_creation_method(cls.create_marked, "marked")
        cls._add_extraction_method(extract_tri, None)
        cls._add_extraction_method(extract_tri_wide, "wide")
        cls._add_reader_method(cls.read_old, 1)
        cls._add_reader_method(None, None)


def extract_tri(in_dist, **kwargs):
    shifts = kwargs.pop("shifts", SHIFTS)
    return dict(centers=in_dist.median().reshape(-1, 1), widths=in_dist.std().reshape(-1, 1), shifts=shifts)


def extract_tri_wide(in_dist, **kwargs):
    out = extract_tri(in_dist, **kwargs)
    out["widths"] = 3.0 * out["widths"]
    return out


class tri_pdf_gen(TriBase):
    name = "user_tri_pdf"

    def _pdf(self, x, row):
        return tri_pdf(*self._pars(x, row))


class tri_cdf_gen(TriBase):
    name = "user_tri_cdf"

    def _cdf(self, x, row):
        return tri_cdf(*self._pars(x, row))


class tri_both_gen(TriBase):
    name = "user_tri_both"

    def _pdf(self, x, row):
        return tri_pdf(*self._pars(x, row))

    def _cdf(self, x, row):
        return tri_cdf(*self._pars(x, row))


for _cls in (tri_pdf_gen, tri_cdf_gen, tri_both_gen):
    if _cls.name not in FACT:
        qp.factory.add_class(_cls)
# what is cheap to evaluate, and how accurate it is
CLASSES = dict(both=(FACT["user_tri_both"], 1e-9), pdf=(FACT["user_tri_pdf"], 1e-4), cdf=(FACT["user_tri_cdf"], 1e-5))


class Tri:
    """What an ensemble of the user's representation should be"""

    def __init__(self, c, h, shifts):
        self.c, self.h, self.shifts = np.asarray(c, float), np.asarray(h, float), np.asarray(shifts, float)
        self.npdf = len(self.c)

    def data(self):
        return dict(centers=self.c.reshape(-1, 1).copy(), widths=self.h.reshape(-1, 1).copy(), shifts=self.shifts.copy())

    def rows(self, rows):
        return Tri(self.c[rows], self.h[rows], self.shifts)

    def pdf(self, x):
        return np.array([tri_pdf(np.full(x.shape, c), np.full(x.shape, h), self.shifts, x) for c, h in zip(self.c, self.h)])

    def cdf(self, x):
        return np.array([tri_cdf(np.full(x.shape, c), np.full(x.shape, h), self.shifts, x) for c, h in zip(self.c, self.h)])

    def mean(self):
        return self.c + self.h * self.shifts.mean()

    def var(self):
        return self.h**2 * (1.0 / 6.0 + self.shifts.var())

    def points(self, rng, n):
        i = rng.integers(self.npdf, size=n)
        return self.c[i] + self.h[i] * rng.uniform(self.shifts.min() - 1.2, self.shifts.max() + 1.2, size=n)


def gen_tri(rng, npdf=None):
    npdf = int(rng.integers(1, 6)) if npdf is None else npdf
    nshift = int(rng.integers(1, 4))
    shifts = np.sort(rng.normal(size=nshift)) * 2
    return Tri(rng.normal(size=npdf), rng.uniform(0.3, 1.5, size=npdf), shifts)


def make(rng, cls, tri, ancil=None):
    style = int(rng.integers(0, 4))
    if style == 0:
        ens = qp.Ensemble(cls.create, data=tri.data(), ancil=ancil)
    elif style == 1:
        ens = qp.create(cls.name, tri.data()) if hasattr(qp, "create") else qp.factory.create(cls.name, tri.data())
        ens.set_ancil(ancil)
    elif style == 2:
        ens = qp.Ensemble(getattr(qp.stats, cls.name), data=tri.data(), ancil=ancil)
    else:
        ens = qp.Ensemble(getattr(qp.stats, cls.name + "_gen").create, tri.data(), ancil)
    return ens


def judge(ctx, ens, cls, tri, lab, tol, heavy=True):
    """An ensemble of the user's representation is what the model says"""
    rng = ctx.rng
    ctx.true("class", ens.gen_class is cls, "%s: class %s, expected %s" % (lab, ens.gen_class, cls))
    if not ctx.true("npdf", ens.npdf == tri.npdf, "%s: %s PDFs, expected %i" % (lab, ens.npdf, tri.npdf)):
        return
    dict_equal(ctx, "objdata", ens.objdata(), dict(centers=tri.c.reshape(-1, 1), widths=tri.h.reshape(-1, 1)), lab, exact=False, rtol=1e-13)
    meta = ens.metadata()
    ctx.close("meta", np.ravel(meta["shifts"]), tri.shifts, rtol=1e-14, atol=0, msg="%s: metadata" % lab)
    ctx.true("meta", np.ravel(meta["pdf_name"])[0] == cls.name.encode() and np.ravel(meta["pdf_version"])[0] == 3, "%s: metadata %s" % (lab, meta))
    n = 4 if not heavy else int(rng.integers(1, 8))
    x = tri.points(rng, n)
    ctx.close("pdf", np.reshape(ens.pdf(x), (tri.npdf, n)), tri.pdf(x), rtol=tol, atol=20 * tol, msg="%s: pdf" % lab)
    want = tri.cdf(x)
    if heavy or cls.name != "user_tri_pdf":
        ctx.close("cdf", np.reshape(ens.cdf(x), (tri.npdf, n)), want, rtol=tol, atol=tol, msg="%s: cdf" % lab)
    own = np.array([tri.rows([i]).points(rng, 3) for i in range(tri.npdf)])
    wown = np.array([tri.rows([i]).pdf(own[i])[0] for i in range(tri.npdf)])
    ctx.close("pdf2d", ens.pdf(own), wown, rtol=tol, atol=20 * tol, msg="%s: pdf at points of each PDF" % lab)
    ctx.ev("ensembles")


def path_of(ctx, ext):
    return os.path.join(ctx.scratch, "c30_%s_%i.%s" % (ctx.workload, ctx.index, ext))


def drop(path):
    base = os.path.splitext(path)[0]
    folder = os.path.dirname(base)
    for name in os.listdir(folder):
        if name.startswith(os.path.basename(base)):
            os.remove(os.path.join(folder, name))


def user(ctx):
    """Operations on ensembles of a representation that the user has added"""
    rng = ctx.rng
    which = ["both", "both", "pdf", "cdf"][int(rng.integers(0, 4))]
    cls, tol = CLASSES[which]
    heavy = which == "both" or rng.random() < 0.3
    tri = gen_tri(rng, None if which == "both" else int(rng.integers(1, 4)))
    anc = gen_ancil(rng, tri.npdf) if rng.random() < 0.5 else None
    ens = make(rng, cls, tri, anc)
    ops = ["evaluate", "slice", "join", "append", "update", "file", "chunks", "iterate", "dict", "gridded", "plot", "metrics", "sample", "moments", "old"]
    op = ops[ctx.index % len(ops)]
    lab = "user class with %s: %s" % (which, op)
    ctx.note(lab, tri.npdf, tri.shifts)
    if op == "evaluate":
        judge(ctx, ens, cls, tri, lab, tol)
        x = tri.points(rng, 3)
        ctx.close("sf", np.reshape(ens.sf(x), (tri.npdf, 3)), 1 - tri.cdf(x), rtol=tol, atol=tol, msg=lab)
        q = rng.uniform(0.05, 0.95, size=3)
        got = np.reshape(ens.ppf(q), (tri.npdf, 3))
        back = np.array([tri.rows([i]).cdf(got[i])[0] for i in range(tri.npdf)])
        ctx.close("ppf", back, np.tile(q, (tri.npdf, 1)), rtol=0, atol=max(10 * tol, 1e-7), msg="%s: cdf at ppf" % lab)
        ctx.close("median", np.ravel(ens.median()), np.ravel(ens.ppf(0.5)), rtol=1e-9, atol=1e-9, msg=lab)
        bins = np.sort(tri.points(rng, 4))
        ctx.close("histogramize", np.reshape(ens.histogramize(bins)[1], (tri.npdf, 3)), np.diff(tri.cdf(bins)), rtol=tol, atol=2 * tol, msg=lab)
    elif op == "slice":
        rows = [np.arange(tri.npdf)[::-1], np.array([int(rng.integers(tri.npdf))]), np.flatnonzero(rng.random(tri.npdf) < 0.6)][int(rng.integers(0, 3))]
        if rows.size == 0:
            rows = np.array([0])
        got = ens[rows]
        judge(ctx, got, cls, tri.rows(rows), lab, tol, heavy)
        ctx.true("ancil", (got.ancil is None) == (anc is None), lab)
        if anc is not None:
            dict_equal(ctx, "ancil", got.ancil, {k: v[rows] for k, v in anc.items()}, lab)
        i = int(rng.integers(tri.npdf))
        judge(ctx, ens[i], cls, tri.rows([i]), lab, tol, False)
    elif op in ("join", "append"):
        other = gen_tri(rng, int(rng.integers(1, 4)))
        other.shifts = tri.shifts
        anc2 = None if anc is None else {k: v[np.arange(other.npdf) % tri.npdf] for k, v in anc.items()}
        ens2 = make(rng, cls, other, anc2)
        both = Tri(np.concatenate([tri.c, other.c]), np.concatenate([tri.h, other.h]), tri.shifts)
        if op == "join":
            got = qp.concatenate([ens, ens2])
        else:
            got = ens
            got.append(ens2)
        judge(ctx, got, cls, both, lab, tol, heavy)
        if anc is not None:
            dict_equal(ctx, "ancil", got.ancil, {k: np.concatenate([anc[k], anc2[k]]) for k in anc}, lab)
        bad = gen_tri(rng, 1)
        bad.shifts = np.append(tri.shifts, 7.0)
        ctx.raises("mismatch", (ValueError, KeyError), lambda: qp.concatenate([ens, make(rng, cls, bad)]), "%s of different metadata" % lab)
    elif op == "update":
        new = gen_tri(rng)
        if rng.random() < 0.5:
            new.shifts = tri.shifts
            ens.update_objdata({k: v for k, v in new.data().items() if k != "shifts"})
        else:
            ens.update(new.data())
        judge(ctx, ens, cls, new, lab, tol, heavy)
    elif op == "file":
        ext = ["hdf5", "fits", "pq"][int(rng.integers(0, 3))]
        path = path_of(ctx, ext)
        ens.write_to(path)
        got = qp.read(path)
        judge(ctx, got, cls, tri, lab + " " + ext, tol, heavy)
        ctx.true("is_qp", qp.is_qp_file(path), "%s: is_qp_file is false" % lab)
        if anc is not None and ext != "fits":
            dict_equal(ctx, "ancil", got.ancil, anc, lab)
        drop(path)
    elif op in ("chunks", "iterate"):
        path = path_of(ctx, "hdf5")
        if op == "chunks":
            group, fout = ens.initializeHdf5Write(path, tri.npdf)
            ranges = subranges(rng, tri.npdf)
            for k in rng.permutation(len(ranges)):
                ens[slice(*ranges[k])].writeHdf5Chunk(group, *ranges[k])
            ens.finalizeHdf5Write(fout)
            judge(ctx, qp.read(path), cls, tri, lab, tol, heavy)
        else:
            ens.write_to(path)
        seen = []
        keep = []
        for start, end, part in qp.iterator(path, chunk_size=int(rng.integers(1, tri.npdf + 2))):
            seen += list(range(start, end))
            keep.append((start, end, part))
        ctx.equal("rows", seen, list(range(tri.npdf)), lab)
        for start, end, part in keep:
            judge(ctx, part, cls, tri.rows(np.arange(start, end)), "%s rows %i to %i" % (lab, start, end), tol, False)
        drop(path)
    elif op == "dict":
        path = path_of(ctx, "hdf5")
        norm = qp.Ensemble(qp.stats.norm, data=dict(loc=np.array([[1.0], [2.0]]), scale=np.array([[1.0], [0.5]])))
        qp.factory.write_dict(path, dict(mine=ens, normal=norm))
        got = qp.factory.read_dict(path)
        judge(ctx, got["mine"], cls, tri, lab, tol, heavy)
        ctx.true("class", got["normal"].gen_class is norm.gen_class, lab)
        drop(path)
    elif op == "gridded":
        for _ in range(2):
            grid = np.sort(tri.points(rng, 6))
            got = ens.gridded(grid)
            ctx.close("gridded", got[1], tri.pdf(grid), rtol=max(tol, 1e-8), atol=20 * tol, msg=lab)
            tri = gen_tri(rng)
            ens.update(tri.data())
        grid = np.linspace(tri.c.min() - 4, tri.c.max() + 4, 41)
        vals = tri.pdf(grid)
        mode = np.ravel(ens.mode(grid))
        got = np.array([tri.rows([i]).pdf(mode[i:i + 1])[0, 0] for i in range(tri.npdf)])
        ctx.close("mode", got, vals.max(axis=1), rtol=max(tol, 1e-8), atol=20 * tol, msg="%s: pdf at the mode" % lab)
    elif op == "plot":
        i = int(rng.integers(tri.npdf))
        func = str(rng.choice(["plot", "plot_native"]))
        lo, hi = tri.c[i] - 3.0, tri.c[i] + 3.0
        axes = getattr(ens, func)(i, xlim=(lo, hi))
        line = axes.lines[0]
        x = np.linspace(lo, hi, 101)
        ctx.close("plot", line.get_xdata(), x, rtol=1e-12, atol=1e-12, msg=lab)
        ctx.close("plot", line.get_ydata(), tri.rows([i]).pdf(x)[0], rtol=tol, atol=20 * tol, msg="%s %s of row %i" % (lab, func, i))
        plt.close("all")
    elif op == "metrics":
        x = np.ravel(tri.mean()) + 0.3
        got = np.array([float(np.ravel(ens[i].cdf(x[i]))[0]) for i in range(tri.npdf)])
        ctx.close("pit", got, [tri.rows([i]).cdf(x[i:i + 1])[0, 0] for i in range(tri.npdf)], rtol=tol, atol=tol, msg=lab)
        lim = (float((tri.c - 2).min()), float((tri.c + 2).max()))
        grid = np.linspace(lim[0], lim[1], int(round((lim[1] - lim[0]) / 0.01)) + 1)
        norm = qp.Ensemble(qp.stats.norm, data=dict(loc=tri.c.reshape(-1, 1), scale=tri.h.reshape(-1, 1)))
        got = qp.metrics.calculate_rmse(ens, norm, lim)
        want = [np.sqrt(np.mean((a - b) ** 2)) for a, b in zip(tri.pdf(grid), norm.pdf(grid))]
        ctx.close("rmse", np.ravel(got), want, rtol=0.02, atol=50 * tol, msg=lab)
    elif op == "sample":
        size = 3 if which == "pdf" else 40
        out = ens.rvs(size=size) if rng.random() < 0.5 else ens.rvs(size=size, random_state=5)
        ctx.true("shape", np.shape(out) == (tri.npdf, size), "%s: shape %s" % (lab, np.shape(out)))
        out = np.reshape(out, (tri.npdf, size))
        lo = tri.c + tri.h * (tri.shifts.min() - 1)
        hi = tri.c + tri.h * (tri.shifts.max() + 1)
        ctx.true("support", np.all((out >= lo[:, None] - 1e-3) & (out <= hi[:, None] + 1e-3)), "%s: samples outside of the support of their row" % lab)
    elif op == "moments":
        if which == "both":
            # (one row is enough, scipy integrates numerically)
            i = int(rng.integers(tri.npdf))
            one = ens[i]
            grid = np.linspace(tri.c[i] - 12, tri.c[i] + 12, 6001)
            for m in (0, 1, 2):
                got = float(np.ravel(one.moment_partial(m, (grid[0], grid[-1]), 0.004))[0])
                want = [1.0, tri.mean()[i], tri.var()[i] + tri.mean()[i] ** 2][m]
                ctx.close("moment", got, want, rtol=2e-3, atol=2e-3, msg="%s %i" % (lab, m))
            ctx.close("moment", float(np.ravel(one.mean())[0]), tri.mean()[i], rtol=1e-3, atol=1e-3, msg="%s: mean" % lab)
        else:
            judge(ctx, ens, cls, tri, lab, tol)
    else:
        # tables written by an older version of the representation
        tables = dict(
            meta=dict(pdf_name=np.array([cls.name.encode()]), pdf_version=np.array([1]), shifts=tri.shifts.reshape(1, -1)),
            data=dict(lo=(tri.c - tri.h).reshape(-1, 1), hi=(tri.c + tri.h).reshape(-1, 1)),
        )
        if rng.random() < 0.4:
            got = qp.from_tables(tables)
            judge(ctx, got, cls, tri, lab + " from_tables", tol, heavy)
        else:
            path = path_of(ctx, "hdf5")
            from tables_io import io

            if rng.random() < 0.5:
                io.writeDictsToHdf5(tables, path)
                judge(ctx, qp.read(path), cls, tri, lab + " read", tol, heavy)
                for start, end, part in qp.iterator(path, chunk_size=int(rng.integers(1, tri.npdf + 2))):
                    judge(ctx, part, cls, tri.rows(np.arange(start, end)), lab + " iterator", tol, False)
            else:
                io.writeDictsToHdf5(dict(a=tables, b=tables), path)
                judge(ctx, qp.factory.read_dict(path)["b"], cls, tri, lab + " read_dict", tol, heavy)
            drop(path)
    ctx.seen(which, op, tri.npdf > 1, anc is not None)


def convert(ctx):
    """Conversions to and from the user's representation, and which method they use"""
    rng = ctx.rng
    if rng.random() < 0.5:
        case = gen_case(ctx, kinds=("hist", "interp", "packed", "scipy"))
        src = case.make()
        cls, tol = CLASSES[["both", "cdf"][int(rng.integers(0, 2))]]
        with np.errstate(all="ignore"):
            c, h = np.ravel(src.median()), np.ravel(src.std())
        if not np.all(np.isfinite(c) & np.isfinite(h) & (h > 1e-3 * case.width())):
            ctx.ev("no width")
            return
        method = [None, "wide", "marked", "nonsense"][int(rng.integers(0, 4))]
        kwds = {} if method is None and rng.random() < 0.5 else dict(method=method)
        shifts = SHIFTS
        if rng.random() < 0.5:
            shifts = np.array([0.0, 1.0])
            kwds["shifts"] = shifts
        keep = dict(kwds)
        got = qp.convert(src, cls.name, **kwds) if rng.random() < 0.5 else src.convert_to(cls, **kwds)
        ctx.equal("kwds", list(kwds), list(keep), "keywords")
        lab = "%s to the user class, method %s" % (case.label, method)
        ctx.true("class", got.gen_class is cls, "%s: class %s" % (lab, got.gen_class))
        ctx.close("convert", np.ravel(got.objdata()["centers"]), c, rtol=1e-6, atol=1e-6 * case.width(), msg=lab)
        ctx.close("convert", np.ravel(got.objdata()["widths"]), h * (3.0 if method == "wide" else 1.0), rtol=1e-6, atol=1e-6 * case.width(), msg=lab)
        ctx.close("convert", np.ravel(got.metadata()["shifts"]), shifts, rtol=1e-14, atol=0, msg=lab)
        used = got.dist._used  # pylint: disable=protected-access
        ctx.true("method", used == ("marked" if method == "marked" else None), "%s: made by %s" % (lab, used))
        ctx.seen("to user", case.label, method)
        return
    cls, tol = CLASSES["both"]
    tri = gen_tri(rng)
    ens = make(rng, cls, tri)
    lo = float((tri.c + tri.h * (tri.shifts.min() - 1)).min()) - 0.1
    hi = float((tri.c + tri.h * (tri.shifts.max() + 1)).max()) + 0.1
    target = str(rng.choice(["interp", "hist", "quant"]))
    lab = "user class to %s" % target
    if target == "interp":
        grid = np.linspace(lo, hi, 201)
        got = qp.convert(ens, "interp", xvals=grid)
        vals = tri.pdf(grid)
        ctx.close("convert", got.pdf(grid), vals / np.sum(0.5 * (vals[:, 1:] + vals[:, :-1]) * np.diff(grid), axis=1)[:, None], rtol=1e-8, atol=1e-9, msg=lab)
    elif target == "hist":
        bins = np.linspace(lo, hi, 41)
        got = qp.convert(ens, "hist", bins=bins)
        ctx.close("convert", got.cdf(bins), tri.cdf(bins), rtol=1e-8, atol=1e-9, msg=lab)
    else:
        quants = np.linspace(0.02, 0.98, 25)
        got = qp.convert(ens, "quant", quants=quants)
        back = np.array([tri.rows([i]).cdf(np.asarray(got.objdata()["locs"])[i])[0] for i in range(tri.npdf)])
        qq = np.ravel(got.metadata()["quants"])
        inside = (qq > 0.01) & (qq < 0.99)
        ctx.close("convert", back[:, inside], np.tile(qq[inside], (tri.npdf, 1)), rtol=0, atol=1e-7, msg=lab)
    ctx.seen("from user", target, tri.npdf)


COUNT = [0]


def fresh(base=tri_both_gen, **attrs):
    """A new class, with a name that nothing else has"""
    COUNT[0] += 1
    name = attrs.pop("name", "user_fresh_%i_%i" % (os.getpid(), COUNT[0]))
    return type(name, (base,), dict(attrs, name=name))


def registry(ctx):
    """What the factory holds, gives and rejects"""
    rng = ctx.rng
    style = ctx.index % 6
    names = list(FACT.keys())
    if style == 0:
        # every representation is made by its name, in each of the ways
        kind = ALL_KINDS[(ctx.index // 6) % len(ALL_KINDS)]
        case = GENS[kind](rng)
        ref = case.make()
        name = ref.gen_class.name
        cls = FACT[name]
        ctx.true("class", ref.gen_class is cls, "%s: factory[%s] is %s" % (case.label, name, cls))
        ctx.true("class", getattr(FACT, name + "_gen") is cls, "%s: %s_gen is %s" % (case.label, name, getattr(FACT, name + "_gen")))
        xs = np.sort(case.points(rng, 5))
        data = {k: v for k, v in ref.metadata().items() if k not in ("pdf_name", "pdf_version")}
        data = {k: np.squeeze(v) if np.ndim(v) > 1 else np.asarray(v)[0] for k, v in data.items()}
        data = {k: (v.item() if np.ndim(v) == 0 and hasattr(v, "item") else v) for k, v in data.items()}
        data.update({k: np.array(v) for k, v in ref.objdata().items()})
        want = snapshot(ref, xs)
        for way, ens in (
            ("create", qp.factory.create(name, dict(data))),
            ("stats", qp.Ensemble(getattr(qp.stats, name), data=dict(data))),
            ("class", qp.Ensemble(cls.create, data=dict(data))),
            ("creation_method", qp.Ensemble(cls.creation_method(None), data=dict(data))),
            ("other method", FACT.create(name, dict(data), method="nonsense")),
        ):
            state_equal(ctx, "create", snapshot(ens, xs), want, "%s made by %s" % (case.label, way), exact=False, rtol=1e-7)
        ctx.seen("create", case.label)
    elif style == 1:
        cls = fresh()
        qp.factory.add_class(cls)
        ctx.true("added", FACT[cls.name] is cls and list(FACT.keys())[:-1] == names, "the registry is not what it was, plus the new class")
        tri = gen_tri(rng)
        judge(ctx, make(rng, cls, tri), cls, tri, "new class", 1e-9)
        # again, and another class of the same name
        for other in (cls, fresh(name=cls.name, create=None)):
            ctx.raises("duplicate", KeyError, lambda: qp.factory.add_class(other), "class of a name that is taken")
            ctx.true("duplicate", FACT[cls.name] is cls and getattr(FACT, cls.name + "_gen") is cls, "a rejected class replaced the one that is there")
        judge(ctx, make(rng, cls, tri), cls, tri, "new class, after rejections", 1e-9)
        ctx.seen("add")
    elif style == 2:
        noname = type("NoName", (Pdf_rows_gen,), {})
        builtin = type("Clash", (tri_both_gen,), dict(name=str(rng.choice(["interp", "norm", "hist", "quant", "mixmod"]))))
        keep = FACT[builtin.name]
        ctx.raises("noname", AttributeError, lambda: qp.factory.add_class(type("X", (), {})), "class without a name")
        ctx.raises("duplicate", KeyError, lambda: qp.factory.add_class(builtin), "class with the name of a built-in one")
        ctx.true("duplicate", FACT[builtin.name] is keep and getattr(qp.stats, builtin.name).__self__ is keep, "a built-in class was replaced")
        ctx.true("registry", list(FACT.keys()) == names, "rejected classes have changed the registry")
        del noname
        ctx.seen("rejected", builtin.name)
    elif style == 3:
        bad = "no_such_pdf_%i" % ctx.index
        norm = qp.Ensemble(qp.stats.norm, data=dict(loc=np.array([[1.0], [2.0]]), scale=np.array([[1.0], [0.5]])))
        ctx.raises("unknown", KeyError, lambda: qp.factory.create(bad, {}), "create of an unknown class")
        ctx.raises("unknown", KeyError, lambda: qp.convert(norm, bad), "conversion to an unknown class")
        ctx.raises("unknown", KeyError, lambda: qp.convert(norm, str(rng.choice(["norm", "gamma", "expon"]))), "conversion to a class that has no extraction method")
        ctx.raises("unknown", KeyError, lambda: norm.convert_to(FACT["norm"]), "conversion to a class that has no extraction method")
        tabs = norm.build_tables()
        tabs["meta"] = dict(tabs["meta"], pdf_name=np.array([bad.encode()]))
        ctx.raises("unknown", KeyError, lambda: qp.from_tables(tabs), "tables of an unknown class")
        path = path_of(ctx, "hdf5")
        from tables_io import io

        io.writeDictsToHdf5(tabs, path)
        ctx.raises("unknown", KeyError, lambda: qp.read(path), "file of an unknown class")
        ctx.raises("unknown", KeyError, lambda: list(qp.iterator(path)), "iteration over a file of an unknown class")
        drop(path)
        ctx.true("registry", list(FACT.keys()) == names, "rejected operations have changed the registry")
        ctx.seen("unknown")
    elif style == 4:
        out = pyio.StringIO()
        cls = fresh()
        qp.factory.add_class(cls)
        FACT.pretty_print(stream=out)
        txt = out.getvalue()
        lines = txt.split("\n")
        heads = {line.split(":")[0] for line in lines}
        missing = [name for name in FACT if name not in heads]
        ctx.true("print", not missing, "not listed: %s" % missing[:5])
        start = next(i for i, line in enumerate(lines) if line.startswith(cls.name + ":"))
        body = [line for line in lines[start + 1:] if line]
        for what in ("Create  default", "Create  marked", "Extract default", "Extract wide", "Reader  1"):
            ctx.true("print", any(line.startswith(what) for line in body), "%s of the new class is not listed" % what)
        ctx.seen("print")
    else:
        # another factory has its own registry
        other = Factory()
        cls = fresh()
        other.add_class(cls)
        ctx.true("own", cls.name in other and cls.name not in FACT and not hasattr(FACT, cls.name), "a class was added to another factory as well")
        ctx.true("own", list(FACT.keys()) == names, "another factory changed the registry")
        ctx.raises("own", KeyError, lambda: qp.factory.create(cls.name, {}), "class of another factory")
        tri = gen_tri(rng)
        judge(ctx, other.create(cls.name, tri.data()), cls, tri, "class of another factory", 1e-9)
        # methods that one class adds are not those of another
        one, two = fresh(), fresh()
        other.add_class(one)
        other.add_class(two)
        mine, yours = object(), object()
        ver = int(rng.choice([0, 2, 3, 7]))
        first, second = (one, two) if rng.random() < 0.5 else (two, one)
        first._add_reader_method(mine, ver)  # pylint: disable=protected-access
        second._add_reader_method(yours, ver)  # pylint: disable=protected-access
        ctx.true("own", first.reader_method(ver) is mine and second.reader_method(ver) is yours, "the reader of one class for version %i is that of another" % ver)
        later = fresh()
        other.add_class(later)
        ctx.true("own", later.reader_method(ver) is None and cls.reader_method(ver) is None, "the reader of one class for version %i is that of another" % ver)
        for name in ("interp", "norm", "hist", "quant"):
            ctx.true("own", FACT[name].reader_method(ver) is None, "%s got the reader of another class" % name)
        func = object()
        one._add_extraction_method(func, "special")  # pylint: disable=protected-access
        one._add_creation_method(func, "special")  # pylint: disable=protected-access
        ctx.true("own", one.extraction_method("special") is func and two.extraction_method("special") is not func, "an extraction method was added to another class as well")
        ctx.true("own", one.creation_method("special") is func and two.creation_method("special") is not func, "a creation method was added to another class as well")
        ctx.true("own", FACT["interp"].extraction_method("special") is FACT["interp"].extraction_method(None), "unknown methods do not give the default")
        ctx.true("own", FACT["norm"].extraction_method("special") is None and FACT["norm"].extraction_method(None) is None, "scipy classes have an extraction method")
        ctx.seen("own")


def helpers(ctx):
    """The helpers for dictionaries"""
    rng = ctx.rng
    npdf = int(rng.integers(1, 8))
    data = dict(
        a=rng.normal(size=(npdf, 3)), b=rng.integers(0, 9, size=npdf), c=rng.normal(size=(npdf, 2, 2)).astype("f4"),
        s=np.array(["n%i" % i for i in range(npdf)]),
    )
    # slices
    key = [int(rng.integers(-npdf, npdf)), slice(None, None, -1), rng.permutation(npdf), np.flatnonzero(rng.random(npdf) < 0.5)][int(rng.integers(0, 4))]
    got = dict_utils.slice_dict(dict(data, scalar=3.5, none=None), key)
    for k, v in data.items():
        ctx.equal("slice", got[k], v[key], "slice_dict of %s" % k)
    ctx.true("slice", got["scalar"] == 3.5 and got["none"] is None and set(got) == set(data) | {"scalar", "none"}, "slice_dict: %s" % list(got))
    # concatenation
    n = int(rng.integers(1, 4))
    parts = [{k: v[rng.integers(0, npdf, size=int(rng.integers(0, 4)))] for k, v in data.items()} for _ in range(n)]
    for part in parts:
        size = len(part["a"])
        for k in part:
            part[k] = data[k][rng.integers(0, npdf, size=size)]
    got = dict_utils.concatenate_dicts(parts)
    for k in data:
        ctx.equal("concatenate", got[k], np.concatenate([p[k] for p in parts]), "concatenate_dicts of %s" % k)
    if n > 1:
        bad = [dict(p) for p in parts]
        i = int(rng.integers(n))
        if rng.random() < 0.5:
            bad[i].pop("b")
        else:
            bad[i]["extra"] = bad[i]["b"]
        ctx.raises("keys", (ValueError, KeyError), lambda: dict_utils.concatenate_dicts(bad), "concatenate_dicts of different keys")
        ctx.raises("keys", (ValueError, KeyError), lambda: dict_utils.check_keys(bad), "check_keys of different keys")
    dict_utils.check_keys(parts)
    # shapes
    dict_utils.check_array_shapes(data, npdf)
    dict_utils.check_array_shapes(None, npdf)
    wrong = dict(data)
    k = str(rng.choice(["a", "b", "c"]))
    add = int(rng.integers(1, 3))
    wrong[k] = np.concatenate([data[k], data[k][:1].repeat(add, axis=0)]) if rng.random() < 0.6 or npdf < 3 else data[k][:-1]
    ctx.raises("shapes", ValueError, lambda: dict_utils.check_array_shapes(wrong, npdf), "check_array_shapes, %s of shape %s for %i PDFs" % (k, np.shape(wrong[k]), npdf))
    # comparisons
    one = {k: v for k, v in data.items() if k != "s"}
    twin = {k: v.copy() for k, v in one.items()}
    ctx.true("compare", dict_utils.compare_two_dicts(one, twin) is True or bool(dict_utils.compare_two_dicts(one, twin)), "equal dictionaries differ")
    ctx.true("compare", bool(dict_utils.compare_dicts([one] * 3 + [twin])), "equal dictionaries differ")
    diff = {k: v.copy() for k, v in one.items()}
    way = int(rng.integers(0, 5))
    if way == 3:
        diff["more"] = np.arange(3.0)
    elif way == 4:
        diff.pop("c")
    elif way == 0:
        k = str(rng.choice(["a", "c"]))
        diff[k].flat[int(rng.integers(diff[k].size))] += 0.1
    elif way == 1:
        diff["b"].flat[int(rng.integers(diff["b"].size))] += 1
    else:
        diff["d"] = diff.pop("a")
    ctx.true("compare", not dict_utils.compare_two_dicts(one, diff), "different dictionaries are equal (%i)" % way)
    mixed = [one, twin, twin]
    mixed[int(rng.integers(1, 3))] = diff
    ctx.true("compare", not dict_utils.compare_dicts(mixed), "different dictionaries are equal (%i)" % way)
    names = [dict(pdf_name=np.array([b"interp"])), dict(pdf_name=np.array([b"hist"]))]
    ctx.true("compare", not dict_utils.compare_dicts(names), "different names are equal")
    # defaults
    book = {}
    ctx.true("default", dict_utils.get_val_or_default(book, "x") is None, "an empty dictionary has a default")
    ctx.true("default", dict_utils.set_val_or_default(book, None, 1) == 1 and dict_utils.get_val_or_default(book, "x") == 1, "the default is not used")
    ctx.true("default", dict_utils.set_val_or_default(book, "x", 2) == 2 and book["x"] == 2, "a new item is not stored")
    ctx.true("default", dict_utils.set_val_or_default(book, "x", 3) == 2 and book["x"] == 2, "an item that is there was replaced")
    ctx.true("default", dict_utils.get_val_or_default(book, "x") == 2 and dict_utils.get_val_or_default(book, "y") == 1, "wrong item")
    out = pyio.StringIO()
    dict_utils.pretty_print({None: "dd", "key": dict(inner="vv")}, ["A ", "B "], stream=out)
    ctx.equal("print", out.getvalue(), "A default : dd\nA key:\nB inner : vv\n", "pretty_print")
    ctx.ev("helpers")
    ctx.seen("helpers", npdf, way, type(key).__name__)


def tables(ctx):
    """from_tables() takes the tables of an ensemble, whatever the form of their columns"""
    rng = ctx.rng
    case = gen_case(ctx, kinds=["scipy"] if ctx.index % 2 else ["packed", "mixmod", "hist", "interp", "irr", "quant", "sparse", "spline"])
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None
    ens = case.make(ancil=anc)
    xs = np.sort(case.points(rng, 5))
    want = snapshot(ens, xs, rng.uniform(0.1, 0.9, size=3))
    tabs = {k: dict(v) for k, v in ens.build_tables().items()}
    forms = set()
    for key, val in tabs["data"].items():
        val = np.asarray(val)
        if val.ndim == 2 and val.shape[1] == 1 and rng.random() < 0.6:
            tabs["data"][key] = val[:, 0]
            forms.add("flat")
        elif val.dtype.kind == "f" and rng.random() < 0.3:
            tabs["data"][key] = val.astype(val.dtype.newbyteorder(">"))
            forms.add("swapped")
        elif rng.random() < 0.3:
            tabs["data"][key] = np.asfortranarray(val)
            forms.add("fortran")
    keys = list(tabs)
    tabs = {keys[k]: tabs[keys[k]] for k in rng.permutation(len(keys))}
    lab = "%s from tables with %s columns" % (case.label, sorted(forms))
    ctx.note(lab)
    got = qp.from_tables(tabs)
    if ctx.true("npdf", got.npdf == case.npdf, "%s: %s PDFs" % (lab, got.npdf)):
        for key, val in ens.objdata().items():
            ctx.close("objdata", np.ravel(got.objdata()[key]), np.ravel(val), rtol=1e-12, atol=1e-300, msg="%s: %s" % (lab, key))
        ctx.true("type", got.gen_class.name == ens.gen_class.name, "%s: a %s" % (lab, got.gen_class.name))
        close_vals(ctx, "pdf", got.pdf(xs), want["pdf"], "%s: pdf" % lab, width=case.width())
        if anc is None:
            ctx.true("ancil", got.ancil is None, "%s: ancil %s" % (lab, got.ancil))
        else:
            dict_equal(ctx, "ancil", got.ancil, anc, "%s: ancil" % lab)
    ctx.seen("tables", case.label, sorted(forms), anc is not None)


WORKLOADS = [("user", user), ("convert", convert), ("registry", registry), ("helpers", helpers), ("tables", tables)]
