"""C32: operations on files release the file, and when they fail they say so and leave the ensemble as it was."""
import os
import shutil
import warnings

import h5py
import numpy as np

import qp
from gens import gen_ancil, gen_case
from lib import probe_points, snapshot, state_equal
from monitors import fingerprint

warnings.filterwarnings("ignore")
RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")


class Injected(OSError):
    """A fault that the harness has injected"""


class Folder:
    """A scratch folder, removed afterwards, and the files in it that this process has open"""

    def __init__(self, ctx):
        self.path = os.path.join(ctx.scratch, "c32_%s_%i" % (ctx.workload, ctx.index))

    def __enter__(self):
        os.makedirs(self.path)
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.path, name)

    def open_files(self):
        out = []
        for num in os.listdir("/proc/self/fd"):
            try:
                target = os.readlink("/proc/self/fd/" + num)
            except OSError:
                continue
            if target.startswith(self.path + "/"):
                out.append(os.path.basename(target))
        return out


def released(ctx, folder, what):
    names = folder.open_files()
    ctx.true("open", not names, "%s: %s left open" % (what, names))
    ctx.ev("files released")


def files(ctx):
    """Every operation on a file lets go of it: it can be written again, with something else"""
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.7 else None
    ens = case.make(ancil=anc)
    xs, qs = probe_points(case, rng)
    want = snapshot(ens, xs, qs)
    exact = case.kind not in RENORM
    with Folder(ctx) as folder:
        path = folder("a.hdf5")
        ops = list(rng.permutation(["write", "read", "is_qp", "metadata", "length", "iterate", "leave", "chunks", "dict", "unknown", "pq", "fits", "fail"]))
        ens.write_to(path)
        released(ctx, folder, "write_to")
        for op in ops:
            if op == "write":
                ens.write_to(path)
            elif op == "read":
                got = qp.read(path)
                released(ctx, folder, "read, while the ensemble is in use")
                state_equal(ctx, "read", snapshot(got, xs, qs), want, "%s: read" % case.label, exact=exact, rtol=1e-13)
            elif op == "is_qp":
                ctx.true("is_qp", qp.is_qp_file(path) is True, "%s: is_qp_file" % case.label)
            elif op == "metadata":
                meta = qp.read_metadata(path)
                ctx.true("metadata", np.ravel(meta["pdf_name"])[0] == ens.gen_class.name.encode(), "%s: read_metadata gives %s" % (case.label, meta["pdf_name"]))
            elif op == "length":
                ctx.true("length", qp.data_length(path) == case.npdf, "%s: data_length" % case.label)
            elif op == "iterate":
                parts = [part for _, _, part in qp.iterator(path, chunk_size=int(rng.integers(1, case.npdf + 2)))]
                released(ctx, folder, "iterator, while the chunks are in use")
                ctx.true("iterate", sum(p.npdf for p in parts) == case.npdf, "%s: iterator" % case.label)
            elif op == "leave":
                # an iteration that is given up
                for _ in qp.iterator(path, chunk_size=1):
                    break
            elif op == "chunks":
                group, fout = ens.initializeHdf5Write(path, case.npdf)
                for i in rng.permutation(case.npdf):
                    ens[int(i)].writeHdf5Chunk(group, i, i + 1)
                ens.finalizeHdf5Write(fout)
                del group, fout
            elif op == "dict":
                other = folder("d.hdf5")
                qp.factory.write_dict(other, dict(a=ens, b=ens))
                released(ctx, folder, "write_dict")
                got = qp.factory.read_dict(other)
                released(ctx, folder, "read_dict, while the ensembles are in use")
                ctx.true("dict", sorted(got) == ["a", "b"], "%s: read_dict gives %s" % (case.label, sorted(got)))
                ens.write_to(other)
            elif op == "unknown":
                with open(folder("x.hdf5"), "w", encoding="utf-8") as fout:
                    fout.write("not a table at all\n" * 40)
                ctx.true("is_qp", qp.is_qp_file(folder("x.hdf5")) is False, "a text file is a qp file")
                with h5py.File(folder("y.hdf5"), "w") as fout:
                    fout.create_group("data")["z"] = np.arange(3)
                ctx.true("is_qp", qp.is_qp_file(folder("y.hdf5")) is False, "a file without metadata is a qp file")
                ctx.true("is_qp", qp.is_qp_file(folder("none.hdf5")) is False, "a file that does not exist is a qp file")
                os.remove(folder("y.hdf5"))
            elif op in ("pq", "fits"):
                other = folder("b." + op)
                ens.write_to(other)
                released(ctx, folder, "write_to " + op)
                got = qp.read(other)
                ctx.true("read", got.npdf == case.npdf, "%s: read %s" % (case.label, op))
                qp.is_qp_file(other)
            else:
                # an operation that fails lets go of the file as well
                with h5py.File(folder("z.hdf5"), "w") as fout:
                    fout.create_group("meta")["pdf_name"] = np.array([b"no_such_pdf"])
                    fout["meta"]["pdf_version"] = np.array([0])
                    fout.create_group("data")["loc"] = np.zeros((2, 1))
                for func in (qp.read, lambda p: list(qp.iterator(p))):
                    try:
                        func(folder("z.hdf5"))
                        ctx.fail("unknown", "a file of an unknown class was read")
                    except KeyError:
                        pass
            released(ctx, folder, op)
            ctx.ev(op)
        os.remove(path)
        state_equal(ctx, "ensemble", snapshot(ens, xs, qs), want, "%s: the ensemble that was written" % case.label)
    ctx.seen(case.label, ops[0], ops[1], anc is not None)


class FailingCreate:
    """Makes the n-th dataset, group or file that h5py creates fail"""

    def __init__(self, nth):
        self.left = nth
        self.fired = False
        self.keep = {}

    def __enter__(self):
        def wrap(owner, name):
            func = getattr(owner, name)
            self.keep[(owner, name)] = func

            def wrapper(*args, **kwargs):
                self.left -= 1
                if self.left < 0:
                    self.fired = True
                    raise Injected(28, "No space left on device (injected)")
                return func(*args, **kwargs)

            setattr(owner, name, wrapper)

        wrap(h5py.Group, "create_dataset")
        wrap(h5py.Group, "create_group")
        wrap(h5py.Dataset, "__setitem__")
        return self

    def __exit__(self, *args):
        for (owner, name), func in self.keep.items():
            setattr(owner, name, func)


def faults(ctx):
    """Writes that fail at any point, and are tried again"""
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.7 else None
    ens = case.make(ancil=anc)
    xs, qs = probe_points(case, rng)
    want = snapshot(ens, xs, qs)
    exact = case.kind not in RENORM
    before = fingerprint(ens)
    way = ["write_to", "write_dict", "chunks"][ctx.index // 9 % 3]
    nth = int(rng.integers(0, 9))
    with Folder(ctx) as folder:
        path = folder("a.hdf5")
        old = case.make()
        if rng.random() < 0.5:
            old.write_to(path)

        whole = rng.random() < 0.5
        parts = [ens[i] for i in range(case.npdf)]
        of_parts = [fingerprint(part) for part in parts]

        def write():
            if way == "write_to":
                ens.write_to(path)
            elif way == "write_dict":
                qp.factory.write_dict(path, dict(one=ens, two=ens))
            else:
                group, fout = ens.initializeHdf5Write(path, case.npdf)
                try:
                    if whole:
                        ens.writeHdf5Chunk(group, 0, case.npdf)
                    else:
                        for i in range(case.npdf):
                            parts[i].writeHdf5Chunk(group, i, i + 1)
                    ens.finalizeHdf5Write(fout)
                finally:
                    # (the caller holds these, and closes them)
                    fout.close()

        def check(lab):
            if way == "write_dict":
                got = qp.factory.read_dict(path)
                ctx.true("retry", sorted(got) == ["one", "two"], "%s: %s" % (lab, sorted(got)))
                got = got["two"]
            else:
                got = qp.read(path)
            state_equal(ctx, "retry", snapshot(got, xs, qs), want, lab, exact=exact, rtol=1e-13)

        lab = "%s %s, fault at %i" % (case.label, way, nth)
        ctx.note(lab)
        error = None
        with FailingCreate(nth) as fault:
            try:
                write()
            except Exception as exc:  # pylint: disable=broad-except
                error = type(exc).__name__
        if fault.fired:
            # (tables_io, which writes whole tables, prints a warning and goes on when a column cannot be written)
            ctx.true("silent", error is not None or way != "chunks", "%s: the write failed, and nothing was said" % lab)
            ctx.ev("faults injected")
        else:
            ctx.true("silent", error is None, "%s: raised %s" % (lab, error))
            check(lab + ": written")
            ctx.ev("no fault reached")
        ctx.equal("ensemble", fingerprint(ens), before, "%s: the ensemble" % lab)
        ctx.true("ensemble", [fingerprint(part) for part in parts] == of_parts, "%s: the chunks" % lab)
        state_equal(ctx, "ensemble", snapshot(ens, xs, qs), want, "%s: the ensemble after a failed write" % lab)
        if way == "chunks":
            # a chunk that does not fit
            group, fout = ens.initializeHdf5Write(folder("c.hdf5"), case.npdf)
            try:
                start = case.npdf + int(rng.integers(0, 3))
                ens.writeHdf5Chunk(group, start, start + case.npdf)
                misfit = None
            except Exception as exc:  # pylint: disable=broad-except
                misfit = type(exc).__name__
            finally:
                fout.close()
            ctx.true("misfit", misfit is not None or case.npdf == 1, "%s: a chunk past the end was written" % lab)
            ctx.equal("ensemble", fingerprint(ens), before, "%s: the ensemble after a chunk that does not fit" % lab)
            released(ctx, folder, lab + ", a chunk that does not fit")
        released(ctx, folder, lab)
        # again, without the fault
        write()
        released(ctx, folder, lab + ", again")
        check(lab + ": written again")
    ctx.seen(case.label, way, nth, fault.fired)


def broken(ctx):
    """Files that are incomplete are rejected, or give what they hold; they never give something else"""
    rng = ctx.rng
    case = gen_case(ctx)
    anc = gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None
    ens = case.make(ancil=anc)
    xs, qs = probe_points(case, rng)
    want = snapshot(ens, xs, qs)
    exact = case.kind not in RENORM
    with Folder(ctx) as folder:
        style = ["truncated", "no data", "no meta", "no column", "no name", "shorter", "ancil rows", "folder"][ctx.index // 9 % 8]
        ext = "hdf5"
        if style == "truncated":
            ext = str(rng.choice(["hdf5", "fits", "pq"]))
        path = folder("a." + ext)
        ens.write_to(path)
        lab = "%s, %s file: %s" % (case.label, ext, style)
        ctx.note(lab)
        must = True
        if style == "truncated":
            name = path if ext != "pq" else folder(str(rng.choice(["adata.pq", "ameta.pq"])))
            size = os.path.getsize(name)
            # (the end of a fits file is padding, and parquet files have their index there)
            with open(name, "r+b") as fout:
                fout.truncate(int(size * rng.uniform(0.05, 0.9)) if size > 100 else 0)
            must = ext != "fits"
        elif style == "folder":
            os.remove(path)
            os.makedirs(path)
        else:
            with h5py.File(path, "r+") as fout:
                if style == "no data":
                    del fout["data"]
                elif style == "no meta":
                    del fout["meta"]
                elif style == "no column":
                    key = str(rng.choice(sorted(fout["data"].keys())))
                    del fout["data"][key]
                elif style == "no name":
                    del fout["meta"]["pdf_name"]
                elif style == "shorter":
                    keys = sorted(fout["data"].keys())
                    if len(keys) < 2 or case.npdf < 3:
                        ctx.ev("not applicable")
                        return
                    key = keys[int(rng.integers(len(keys)))]
                    vals = fout["data"][key][:-1]
                    del fout["data"][key]
                    fout["data"][key] = vals
                    # scipy classes and some representations notice only when they are evaluated
                else:
                    if anc is None or case.npdf < 2:
                        ctx.ev("not applicable")
                        return
                    key = str(rng.choice(sorted(fout["ancil"].keys())))
                    vals = fout["ancil"][key][:-1]
                    del fout["ancil"][key]
                    fout["ancil"][key] = vals
        if style == "no column" and case.variant == "scipy":
            # (parameters of scipy distributions have defaults)
            must = False
        try:
            got = qp.read(path)
            if style == "shorter":
                got.pdf(xs)
            error = None
        except Exception as exc:  # pylint: disable=broad-except
            error = type(exc).__name__
        if error is None and must:
            ctx.fail("accepted", "%s: was read" % lab)
        if error is None and style == "truncated":
            # (a fits file cut between two of its tables is a valid one, without the tables at the end)
            state_equal(ctx, "accepted", snapshot(got, xs, qs), want, lab, exact=exact, rtol=1e-13, ancil=got.ancil is not None)
        ctx.ev("rejected" if error else "read")
        released(ctx, folder, lab)
        if style in ("no meta", "no name", "folder"):
            ctx.true("is_qp", qp.is_qp_file(path) is False, "%s: is_qp_file" % lab)
        # the failure has no consequences
        if style == "folder":
            shutil.rmtree(path)
        if ext == "fits":
            os.remove(path)
        ens.write_to(path)
        state_equal(ctx, "again", snapshot(qp.read(path), xs, qs), want, "%s: written again" % lab, exact=exact, rtol=1e-13)
    ctx.seen(case.label, style, ext, error)


def places(ctx):
    """Writing to places where nothing can be written"""
    rng = ctx.rng
    case = gen_case(ctx)
    ens = case.make(ancil=gen_ancil(rng, case.npdf) if rng.random() < 0.5 else None)
    before = fingerprint(ens)
    with Folder(ctx) as folder:
        os.makedirs(folder("sub.hdf5"))
        for name in ("no/such/folder/a.hdf5", "no/a.fits", "no/a.pq", "sub.hdf5", "a.unknown"):
            ctx.raises("place", Exception, lambda: ens.write_to(folder(name)), "%s: write_to %s" % (case.label, name))
        ctx.raises("place", Exception, lambda: qp.factory.write_dict(folder("no/a.hdf5"), dict(a=ens)), "%s: write_dict" % case.label)
        ctx.raises("place", ValueError, lambda: qp.factory.write_dict(folder("b.hdf5"), dict(a=ens, b=3)), "%s: write_dict of something else" % case.label)
        ctx.true("place", not os.path.exists(folder("b.hdf5")), "%s: a rejected write_dict has made a file" % case.label)
        for name in ("none.hdf5", "none.fits", "none.pq", "no/such.hdf5"):
            ctx.raises("place", Exception, lambda: qp.read(folder(name)), "read %s" % name)
            ctx.raises("place", Exception, lambda: list(qp.iterator(folder(name))), "iterator %s" % name)
        ctx.equal("ensemble", fingerprint(ens), before, case.label)
        released(ctx, folder, "rejected operations")
        ctx.true("place", sorted(os.listdir(folder.path)) == ["sub.hdf5"] and not os.listdir(folder("sub.hdf5")), "%s: rejected operations have left %s" % (case.label, sorted(os.listdir(folder.path))))
    ctx.seen(case.label, "places")


WORKLOADS = [("files", files), ("faults", faults), ("broken", broken), ("places", places)]
