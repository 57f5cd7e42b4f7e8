"""C09: iterator() delivers every row exactly once, and chunks stay valid.

The chunks of all the ranks are logged as they come; an offline checker goes through the
log: coverage, order per rank, size, and contents of every chunk, judged when it arrives
and again after all iterators have moved on.
"""
import os

import numpy as np

import qp
from gens import ALL_KINDS, GENS, gen_ancil
from lib import probe_points, snapshot, state_equal

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")


def make_file(ctx, kind, name):
    rng = ctx.rng
    big = kind not in ("spline", "quant", "sparse")
    npdf = int(rng.integers(1, 40 if big else 8))
    case = GENS[kind](rng, npdf=npdf)
    anc = gen_ancil(rng, npdf) if rng.random() < 0.7 else None
    path = os.path.join(ctx.scratch, name + ".hdf5")
    ens = case.make(ancil=anc)
    ens.write_to(path)
    return case, anc, ens, path


def same_chunk(ctx, key, case, anc, ens, start, end, part, lab, xs=None):
    """A chunk holds exactly the rows start..end"""
    rows = np.arange(start, end)
    if not ctx.true(key + ":npdf", part.npdf == end - start, "%s: %s PDFs for rows %i to %i" % (lab, part.npdf, start, end)):
        return
    want = snapshot(ens[rows])
    got = snapshot(part)
    state_equal(ctx, key, got, want, lab, exact=case.kind not in RENORM, rtol=1e-13)
    if anc is not None and part.ancil is not None:
        ctx.equal(key + ":ancil-rows", part.ancil["idx"], anc["idx"][rows], "%s: ancil" % lab)
    else:
        ctx.true(key + ":ancil-rows", (part.ancil is None) == (anc is None), "%s: ancil is %s" % (lab, part.ancil))
    if xs is not None:
        for fun in ("pdf", "cdf"):
            ctx.close(key + ":" + fun, getattr(part, fun)(xs), getattr(ens, fun)(xs)[rows], rtol=1e-9, atol=1e-11 * (1 + 1 / case.width()), msg="%s: %s" % (lab, fun))


def coverage(ctx, log, npdf, chunk_size, parallel_size, lab):
    """Offline check of the log of (rank, start, end)"""
    count = np.zeros(npdf, int)
    last = {}
    for rank, start, end in log:
        ok = ctx.true("range", 0 <= start < end <= npdf, "%s: chunk %i to %i of %i rows" % (lab, start, end, npdf))
        ctx.true("size", end - start <= chunk_size, "%s: chunk of %i rows" % (lab, end - start))
        ctx.true("order", start >= last.get(rank, 0), "%s: rank %i got %i to %i after %s" % (lab, rank, start, end, last.get(rank)))
        last[rank] = end
        if ok:
            count[start:end] += 1
    ctx.true("once", np.all(count == 1), "%s: rows delivered %s times" % (lab, np.unique(count)), rows=np.flatnonzero(count != 1))


def ranks(ctx):
    """All the ranks of one file, in some interleaving"""
    rng = ctx.rng
    kind = ALL_KINDS[ctx.index % len(ALL_KINDS)]
    case, anc, ens, path = make_file(ctx, kind, "f")
    npdf = ens.npdf
    psize = int(rng.choice([1, 1, 2, 3, 5, npdf + 1]))
    csize = int(rng.choice([1, 2, 3, 7, npdf, npdf + 1, max(npdf - 1, 1), 100000]))
    lab = "%s: %i rows, chunk_size %i, %i ranks" % (case.label, npdf, csize, psize)
    ctx.note(lab)
    xs, _ = probe_points(case, rng, 4)
    if psize == 1 and rng.random() < 0.5:
        its = {0: qp.iterator(path, chunk_size=csize)} if csize != 100000 else {0: qp.iterator(path)}
    else:
        its = {r: qp.iterator(path, chunk_size=csize, rank=r, parallel_size=psize) for r in range(psize)}
    log, kept = [], []
    eager = rng.random() < 0.5
    while its:
        rank = int(rng.choice(list(its)))
        try:
            start, end, part = next(its[rank])
        except StopIteration:
            del its[rank]
            continue
        log.append((rank, int(start), int(end)))
        ctx.ev("chunks")
        if eager:
            same_chunk(ctx, "live", case, anc, ens, start, end, part, "%s: rows %i to %i" % (lab, start, end))
        kept.append((start, end, part))
    ctx.note("log", log)
    coverage(ctx, log, npdf, csize, psize, lab)
    for i in rng.permutation(len(kept))[:12]:
        start, end, part = kept[i]
        same_chunk(ctx, "kept", case, anc, ens, start, end, part, "%s: rows %i to %i, when all have been read" % (lab, start, end), xs)
    ctx.seen(case.label, "ranks%i" % min(psize, 6), "all" if csize >= npdf else ("one" if csize == 1 else "some"), "ancil" if anc else "")


def several(ctx):
    """Several iterators over one and over different files, with the chunks used and modified meanwhile"""
    rng = ctx.rng
    files = []
    for k in range(int(rng.integers(1, 4))):
        kind = ALL_KINDS[(ctx.index + k) % len(ALL_KINDS)]
        files.append(make_file(ctx, kind, "f%i" % k))
    its, logs, kept = {}, {}, []
    for k in range(int(rng.integers(2, 5))):
        ifile = int(rng.integers(len(files)))
        csize = int(rng.integers(1, files[ifile][2].npdf + 2))
        its[k] = (ifile, csize, qp.iterator(files[ifile][3], chunk_size=csize))
        logs[k] = []
    active = list(its)
    first = {}
    while active:
        k = int(rng.choice(active))
        ifile, csize, it = its[k]
        case, anc, ens, path = files[ifile]
        try:
            start, end, part = next(it)
        except StopIteration:
            active.remove(k)
            coverage(ctx, logs[k], ens.npdf, csize, 1, "%s: iterator %i" % (case.label, k))
            continue
        logs[k].append((0, int(start), int(end)))
        kept.append((ifile, start, end, part))
        ctx.ev("chunks")
        act = int(rng.integers(0, 5))
        if act == 0 and part.ancil is not None:
            # an update of one chunk is nobody else's business
            part.add_to_ancil(dict(extra=np.zeros(part.npdf)))
            part.set_ancil({k2: v for k2, v in part.ancil.items() if k2 != "extra"})
        elif act == 1:
            grown = part[np.arange(part.npdf)]
            grown.append(part)
            ctx.true("append", grown.npdf == 2 * part.npdf, "%s: append to a copy of a chunk" % case.label)
        elif act == 2:
            # reading the file otherwise, while it is being iterated
            ctx.true("length", qp.data_length(path) == ens.npdf, "%s: data_length during the iteration" % case.label)
            qp.read(path)
        elif act == 3 and ifile in first:
            # a concatenation of chunks of the same file
            both = qp.concatenate([first[ifile][1], part])
            want = np.concatenate([first[ifile][0], np.arange(start, end)])
            xs, _ = probe_points(case, rng, 3)
            ctx.close("concatenate", both.pdf(xs), ens.pdf(xs)[want], rtol=1e-9, atol=1e-11 * (1 + 1 / case.width()), msg="%s: concatenated chunks" % case.label)
        first.setdefault(ifile, (np.arange(start, end), part))
    for i in rng.permutation(len(kept))[:10]:
        ifile, start, end, part = kept[i]
        case, anc, ens, _ = files[ifile]
        xs, _ = probe_points(case, rng, 3)
        same_chunk(ctx, "kept", case, anc, ens, start, end, part, "%s: rows %i to %i, when all have been read" % (case.label, start, end), xs)
    ctx.seen("several", len(its), len(files), files[0][0].label)


def whole(ctx):
    """Concatenating or rewriting the chunks gives the file again; abandoned iterators do no harm"""
    rng = ctx.rng
    kind = ALL_KINDS[ctx.index % len(ALL_KINDS)]
    case, anc, ens, path = make_file(ctx, kind, "f")
    csize = int(rng.integers(1, ens.npdf + 2))
    lost = qp.iterator(path, chunk_size=1)
    next(lost)
    if rng.random() < 0.5:
        lost.close()
    xs, qs = probe_points(case, rng)
    want = snapshot(ens, xs, qs)
    parts = [part for _, _, part in qp.iterator(path, chunk_size=csize)]
    exact = case.kind not in RENORM
    state_equal(ctx, "joined", snapshot(qp.concatenate(parts), xs, qs), want, "%s: chunks joined" % case.label, exact=exact, rtol=1e-13)
    out = os.path.join(ctx.scratch, "out.hdf5")
    todo = list(qp.iterator(path, chunk_size=csize))
    group, fout = todo[0][2].initializeHdf5Write(out, ens.npdf)
    for i in rng.permutation(len(todo)):
        start, end, part = todo[i]
        part.writeHdf5Chunk(group, start, end)
    todo[0][2].finalizeHdf5Write(fout)
    state_equal(ctx, "copied", snapshot(qp.read(out), xs, qs), want, "%s: file copied in chunks" % case.label, exact=exact, rtol=1e-12)
    state_equal(ctx, "original", snapshot(qp.read(path), xs, qs), want, "%s: file iterated over" % case.label, exact=exact, rtol=1e-13)
    ctx.ev("chunks", 2 * len(todo))
    ctx.seen("whole", case.label, min(len(todo), 4))


WORKLOADS = [("ranks", ranks), ("several", several), ("whole", whole)]
