"""C08: chunked hdf5 writing gives the same file whatever the partition and order."""
import os

import h5py
import numpy as np

import qp
from tables_io import io
from common import same
from gens import ALL_KINDS, GENS, SIZE, gen_ancil
from lib import dict_equal, probe_points, snapshot, state_equal, subranges

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")


def make_case(ctx):
    kind = ALL_KINDS[ctx.index % len(ALL_KINDS)]
    big = kind not in ("spline", "quant", "sparse")
    npdf = int(ctx.rng.integers(1, 24 if big else 8))
    case = GENS[kind](ctx.rng, npdf=None if SIZE["mode"] == "rows" else npdf)
    ctx.note("case", case.label, case.npdf)
    return case


def make_ancil(rng, npdf):
    if rng.random() < 0.25:
        return None
    anc = gen_ancil(rng, npdf)
    if rng.random() < 0.3:
        anc["name"] = np.array([b"g%03i" % k for k in range(npdf)])
    if rng.random() < 0.3:
        anc["wide"] = rng.normal(size=(npdf, 2, 2))
    return anc


def write(ctx, case, anc, path, ranges, order, style):
    """Write the slices in the given order; the style says where the ensembles come from"""
    rng = ctx.rng
    whole = case.make(ancil=anc)
    parts = []
    for start, end in ranges:
        rows = np.arange(start, end)
        if style == "slices":
            parts.append(whole[start:end])
        elif style == "index":
            parts.append(whole[rows])
        else:
            parts.append(case.make(rows=rows, ancil=None if anc is None else {k: v[rows] for k, v in anc.items()}))
    if style == "update":
        # one ensemble, updated with the rows of each slice in turn
        live = parts[order[0]]
        group, fout = live.initializeHdf5Write(path, case.npdf)
        for i in order:
            live.update(case.data(np.arange(*ranges[i])), parts[i].ancil)
            live.writeHdf5Chunk(group, *ranges[i])
            ctx.ev("chunks")
        live.finalizeHdf5Write(fout)
        return whole
    first = parts[int(rng.integers(len(parts)))]
    last = parts[int(rng.integers(len(parts)))]
    group, fout = first.initializeHdf5Write(path, case.npdf)
    for i in order:
        parts[i].writeHdf5Chunk(group, *ranges[i])
        ctx.ev("chunks")
    if rng.random() < 0.2:
        # written again, with the same contents
        i = order[int(rng.integers(len(order)))]
        parts[i].writeHdf5Chunk(group, *ranges[i])
    last.finalizeHdf5Write(fout)
    return whole


def judge(ctx, case, whole, path, anc, lab):
    rng = ctx.rng
    xs, qs = probe_points(case, rng)
    exact = case.kind not in RENORM
    want = snapshot(whole, xs, qs)
    # the raw contents of the file
    with h5py.File(path, "r") as fin:
        groups = {"meta", "data"} | ({"ancil"} if anc is not None else set())
        ctx.true("groups", set(fin.keys()) == groups, "%s: groups %s, expected %s" % (lab, sorted(fin.keys()), sorted(groups)))
        raw = {k: np.array(v) for k, v in fin["data"].items()}
        obj = whole.objdata()
        dict_equal(ctx, "rows", raw, obj, "%s: object data in the file" % lab, exact=exact, rtol=1e-13)
        for key in obj:
            if key in raw:
                ctx.true("dtype", raw[key].dtype == np.asarray(obj[key]).dtype, "%s: dtype of %s is %s" % (lab, key, raw[key].dtype))
        if anc is not None:
            rawa = {k: np.array(v) for k, v in fin["ancil"].items()}
            dict_equal(ctx, "ancil-rows", rawa, anc, "%s: ancillary data in the file" % lab)
        ctx.ev("rows", case.npdf)
    got_ens = qp.read(path)
    state_equal(ctx, "read", snapshot(got_ens, xs, qs), want, "%s: read back" % lab, exact=exact, rtol=1e-13)
    ctx.true("length", qp.data_length(path) == case.npdf, "%s: data_length %s, expected %i" % (lab, qp.data_length(path), case.npdf))
    ctx.true("is_qp", qp.is_qp_file(path), "%s: is_qp_file is false" % lab)
    # every row is that of the model, not only that of the whole ensemble
    for i in range(case.npdf):
        one = case.single(i)
        ctx.close("row", got_ens[i].pdf(xs), one.pdf(xs), rtol=1e-8, atol=1e-11 / case.width(), msg="%s: row %i" % (lab, i))
        if i > 5:
            break


def chunks(ctx):
    rng = ctx.rng
    case = make_case(ctx)
    anc = make_ancil(rng, case.npdf)
    shape = int(rng.integers(0, 3))
    if shape == 0:
        ranges = subranges(rng, case.npdf)
    elif shape == 1:
        step = int(rng.integers(1, case.npdf + 2))
        ranges = [(i, min(i + step, case.npdf)) for i in range(0, case.npdf, step)]
    else:
        ranges = [(i, i + 1) for i in range(case.npdf)]
    order = [int(i) for i in rng.permutation(len(ranges))]
    style = str(rng.choice(["slices", "index", "own", "update"]))
    ctx.note("ranges", [ranges[i] for i in order], style)
    path = os.path.join(ctx.scratch, "chunks.hdf5")
    if rng.random() < 0.3:
        # over an older file
        GENS["interp"](rng).make().write_to(path)
    whole = write(ctx, case, anc, path, ranges, order, style)
    lab = "%s in %i slices (%s)" % (case.label, len(ranges), style)
    judge(ctx, case, whole, path, anc, lab)
    ctx.seen(case.label, style, len(ranges) if len(ranges) < 4 else "many", "ordered" if order == sorted(order) else "shuffled", "ancil" if anc else "")


def writers(ctx):
    """Several files written at the same time, slices in turn, by writers that took their share of the rows"""
    rng = ctx.rng
    nfile = int(rng.integers(2, 4))
    jobs, queue = [], []
    for k in range(nfile):
        case = make_case(ctx) if k == 0 else GENS[str(rng.choice(["hist", "interp", "scipy", "irr", "mixmod"]))](rng)
        anc = make_ancil(rng, case.npdf)
        whole = case.make(ancil=anc)
        path = os.path.join(ctx.scratch, "w%i.hdf5" % k)
        nwriter = int(rng.integers(1, 4))
        share = np.array_split(np.arange(case.npdf), nwriter)
        todo = []
        for rows in share:
            if len(rows):
                for a, b in subranges(rng, len(rows)):
                    todo.append((int(rows[0]) + a, int(rows[0]) + b))
        group, fout = whole[todo[0][0]:todo[0][1]].initializeHdf5Write(path, case.npdf)
        jobs.append((case, anc, whole, path, group, fout))
        queue += [(k, r) for r in todo]
    queue = [queue[i] for i in rng.permutation(len(queue))]
    ctx.note("queue", queue)
    for k, (start, end) in queue:
        case, anc, whole, path, group, fout = jobs[k]
        whole[np.arange(start, end)].writeHdf5Chunk(group, start, end)
        ctx.ev("chunks")
    for k in rng.permutation(nfile):
        jobs[k][2].finalizeHdf5Write(jobs[k][5])
    for case, anc, whole, path, _, _ in jobs:
        judge(ctx, case, whole, path, anc, "%s, one of %i files" % (case.label, nfile))
    ctx.seen("writers", jobs[0][0].label, nfile)


def like_write(ctx):
    """The chunked file has the same contents as the one of write_to()"""
    rng = ctx.rng
    case = make_case(ctx)
    anc = make_ancil(rng, case.npdf)
    path = os.path.join(ctx.scratch, "chunks.hdf5")
    ranges = subranges(rng, case.npdf)
    whole = write(ctx, case, anc, path, ranges, [int(i) for i in rng.permutation(len(ranges))], "slices")
    other = os.path.join(ctx.scratch, "whole.hdf5")
    whole.write_to(other)
    with h5py.File(path, "r") as one, h5py.File(other, "r") as two:
        ctx.true("groups", set(one) == set(two), "%s: groups %s, write_to() gives %s" % (case.label, sorted(one), sorted(two)))
        for grp in two:
            ctx.true("columns", set(one[grp]) == set(two[grp]), "%s: columns of %s: %s, write_to() gives %s" % (case.label, grp, sorted(one[grp]), sorted(two[grp])))
            for key in two[grp]:
                a, b = np.array(one[grp][key]), np.array(two[grp][key])
                if grp == "data" and case.kind in RENORM and a.dtype.kind == "f":
                    ctx.close("same-file", a, b, rtol=1e-13, atol=1e-15 * (np.abs(b).max() if b.size else 0), msg="%s: %s/%s" % (case.label, grp, key))
                else:
                    ctx.true("same-file", same(a, b), "%s: %s/%s differs from the file of write_to()" % (case.label, grp, key), got=a, want=b)
    ctx.ev("files", 2)
    ctx.seen("like write_to", case.label, len(ranges))


def allocate(ctx):
    """What a class says has to be allocated for a number of PDFs is what their data take up"""
    rng = ctx.rng
    case = make_case(ctx)
    whole = case.make()
    lab = case.label
    a, b = sorted(int(i) for i in rng.integers(0, case.npdf + 1, size=2))
    piece = whole[a:b] if b > a and rng.random() < 0.7 else whole
    given = dict(piece.objdata())
    if case.kind != "scipy":
        given.update({key: val for key, val in piece.metadata().items() if key not in ("pdf_name", "pdf_version")})
    kwds = whole.gen_class.get_allocation_kwds(case.npdf, **given)
    data = whole.objdata()
    if not ctx.true("alloc-columns", set(kwds) == set(data), "%s: columns to allocate %s, the data have %s" % (lab, sorted(kwds), sorted(data))):
        return
    for key, val in data.items():
        shape, dtype = kwds[key]
        ctx.true("alloc-shape", tuple(shape) == np.shape(val), "%s: %s to allocate for %i PDFs (asked with %i at hand): %s" % (lab, key, case.npdf, piece.npdf, tuple(shape)), want=np.shape(val))
        ctx.true("alloc-type", np.dtype(dtype).kind in {"f": "f", "i": "iu", "u": "u"}.get(np.asarray(val).dtype.kind, np.asarray(val).dtype.kind), "%s: %s of type %s to be allocated as %s" % (lab, key, np.asarray(val).dtype, dtype))
    if ctx.fails:
        return
    path = os.path.join(ctx.scratch, "alloc.hdf5")
    group, fout = io.initializeHdf5Write(path, data=kwds)
    for start, end in subranges(rng, case.npdf):
        whole[np.arange(start, end)].writeHdf5Chunk(group, start, end)
    whole.finalizeHdf5Write(fout)
    got = qp.read(path).build_tables()["data"]
    # where single precision is what is asked for, the values are normalised again on a grid that is rounded to it
    rtol = 1e-5
    if case.knots is not None:
        rtol += 2.4e-7 * np.shape(case.knots)[-1] * np.max(np.abs(case.knots)) / case.width()
    for key, val in whole.build_tables()["data"].items():
        ctx.close("alloc-data", got[key], val, rtol=rtol, atol=1e-6 * np.abs(val).max(), msg="%s: %s written in chunks to what get_allocation_kwds() asks for" % (lab, key))
    ctx.seen("allocate", lab, "piece" if piece is not whole else "whole")


WORKLOADS = [("chunks", chunks), ("writers", writers), ("like_write", like_write), ("allocate", allocate)]
