"""C10: write_dict() and read_dict() keep each named ensemble separate and intact."""
import os

import numpy as np

import qp
from gens import ALL_KINDS, GENS, gen_ancil
from lib import probe_points, snapshot, state_equal
from monitors import fingerprint

RENORM = ("hist", "interp", "interp_irregular", "mixmod", "packed_interp", "sparse")
NAMES = ["a", "b", "data", "meta", "ancil", "ens", "z phot", "pdf-1", "pdf_name", "1", "0", "Z", "name.with.dots", "été", "a ", " a", "A", "aa", "ab", "a\tb", "data ", "DATA", "pdf_names"]

# names that are easily taken for one another
ALIKE = ["a", "a ", " a", "A", "aa", "a\tb", "ab", "a.b", "á"]


def fill(ctx, num, name=None):
    rng = ctx.rng
    cases, ensd, anc = {}, {}, {}
    names = list(rng.permutation(NAMES)[:num]) if rng.random() < 0.7 else list(rng.permutation(ALIKE)[:num])
    mode = int(rng.integers(0, 3))
    kind0 = ALL_KINDS[ctx.index % len(ALL_KINDS)]
    npdf = int(rng.integers(1, 6))
    for k, nam in enumerate(names):
        nam = str(nam)
        kind = kind0 if (mode == 0 or k == 0) else str(rng.choice(ALL_KINDS))
        cases[nam] = GENS[kind](rng, npdf=npdf) if mode == 1 else GENS[kind](rng)
        anc[nam] = gen_ancil(rng, cases[nam].npdf) if rng.random() < 0.5 else None
        ensd[nam] = cases[nam].make(ancil=anc[nam])
        if rng.random() < 0.3:
            rows = rng.permutation(cases[nam].npdf)
            ensd[nam] = ensd[nam][rows]
            cases[nam] = cases[nam].subset(rows)
            if anc[nam] is not None:
                anc[nam] = {k2: v[rows] for k2, v in anc[nam].items()}
    return cases, ensd, anc


def judge(ctx, got, cases, ensd, anc, wants, probes, lab):
    if not ctx.true("keys", set(got) == set(ensd), "%s: keys %s, expected %s" % (lab, sorted(got), sorted(ensd))):
        return
    for nam, ens in ensd.items():
        case = cases[nam]
        xs, qs = probes[nam]
        this = "%s: %s (%s)" % (lab, nam, case.label)
        ctx.true("type", isinstance(got[nam], qp.Ensemble), "%s is a %s" % (this, type(got[nam])))
        state_equal(ctx, "value", snapshot(got[nam], xs, qs), wants[nam], this, exact=case.kind not in RENORM, rtol=1e-13)
        want = case.make()
        ctx.close("model", got[nam].pdf(xs), want.pdf(xs), rtol=1e-8, atol=1e-11 / case.width(), msg="%s: pdf" % this)
        if anc[nam] is not None:
            ctx.equal("model-ancil", got[nam].ancil["idx"], anc[nam]["idx"], "%s: ancil" % this)
        ctx.ev("ensembles")


def dicts(ctx):
    rng = ctx.rng
    num = int(rng.choice([1, 2, 3, 5]))
    cases, ensd, anc = fill(ctx, num)
    ctx.note({k: (c.label, c.npdf) for k, c in cases.items()})
    probes = {k: probe_points(c, rng, 5) for k, c in cases.items()}
    wants = {k: snapshot(e, *probes[k]) for k, e in ensd.items()}
    before = {k: fingerprint(e) for k, e in ensd.items()}
    path = os.path.join(ctx.scratch, "dict.hdf5")
    if rng.random() < 0.3:
        # what was in the file before is gone
        other = fill(ctx, 2)[1]
        qp.factory.write_dict(path, other)
    keys = list(ensd)
    qp.write_dict(path, ensd)
    ctx.true("argument", list(ensd) == keys and all(fingerprint(e) == before[k] for k, e in ensd.items()), "write_dict() modified its argument")
    got = qp.read_dict(path)
    judge(ctx, got, cases, ensd, anc, wants, probes, "read_dict")
    # a second generation, under other names
    ren = {"new " + k: v for k, v in got.items()}
    path2 = os.path.join(ctx.scratch, "dict2.hdf5")
    qp.write_dict(path2, ren)
    again = {k[4:]: v for k, v in qp.read_dict(path2).items()}
    judge(ctx, again, cases, ensd, anc, wants, probes, "read_dict of what was read")
    # the values are independent of each other
    if num > 1:
        nams = [str(k) for k in rng.permutation(list(ensd))]
        one = got[nams[0]]
        one.append(one[np.arange(one.npdf)])
        for nam in nams[1:]:
            xs, qs = probes[nam]
            ctx.close("independent", got[nam].pdf(xs), wants[nam]["pdf"], rtol=1e-9, atol=1e-11 / cases[nam].width(), msg="changed with another ensemble of the dictionary")
    ctx.seen("dict", num, cases[keys[0]].label, len({c.kind for c in cases.values()}), sum(a is not None for a in anc.values()))


def rejects(ctx):
    """Something that is not an ensemble is rejected"""
    rng = ctx.rng
    _, ensd, _ = fill(ctx, int(rng.integers(1, 3)))
    bad = [None, 3, "ens", {}, [next(iter(ensd.values()))], np.zeros(3), dict(meta={}, data={}), next(iter(ensd.values())).dist][ctx.index % 8]
    items = list(ensd.items())
    items.insert(int(rng.integers(0, len(items) + 1)), ("bad", bad))
    path = os.path.join(ctx.scratch, "bad.hdf5")
    ctx.raises("reject", (ValueError, TypeError), lambda: qp.write_dict(path, dict(items)), "write_dict of a %s" % type(bad).__name__)
    ctx.true("no-file", not os.path.exists(path), "a rejected write_dict() left a file behind")
    ctx.seen("reject", type(bad).__name__)


WORKLOADS = [("dicts", dicts), ("rejects", rejects)]
