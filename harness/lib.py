"""Oracles and helpers shared by several checks."""
import numpy as np

import qp
from common import same

META_SKIP = ("pdf_name", "pdf_version")


def ctor_data(ens, rows=None):
    """Constructor data of an ensemble, taken from its public metadata and object data"""
    out = {}
    for key, val in ens.metadata().items():
        if key in META_SKIP:
            continue
        val = np.asarray(val)[0]
        if np.ndim(val) == 0:
            val = val.item() if hasattr(val, "item") else val
        out[key] = val
    for key, val in ens.objdata().items():
        val = np.asarray(val)
        out[key] = np.array(val if rows is None else val[rows])
    return out


def rebuild(ens, rows=None):
    """A fresh ensemble, built from the public data of another one"""
    return qp.Ensemble(ens.gen_class.create, data=ctor_data(ens, rows))


def eval_tol(want, width=None):
    """Absolute tolerance scaled to the values, and to the density over the whole width"""
    want = np.asarray(want, float)
    fin = np.abs(want[np.isfinite(want)])
    tol = 1e-11 * (fin.max() if fin.size else 1.0) + 1e-300
    if width is not None:
        tol += 1e-12 / width
    return tol


def close_vals(ctx, key, got, want, msg, rtol=1e-8, width=None):
    """Same values to rounding"""
    return ctx.close(key, got, want, rtol=rtol, atol=eval_tol(want, width), msg=msg)


def snapshot(ens, xs=None, qs=None):
    """The observable state of an ensemble, copied"""
    out = dict(
        cls=ens.gen_class.__name__,
        npdf=int(ens.npdf),
        shape=tuple(np.atleast_1d(ens.shape).tolist()),
        meta={k: np.array(v) for k, v in ens.metadata().items()},
        obj={k: np.array(v) for k, v in ens.objdata().items()},
        ancil=None if ens.ancil is None else {k: np.array(v) for k, v in ens.ancil.items()},
    )
    if xs is not None:
        out["pdf"] = np.array(ens.pdf(xs))
        out["cdf"] = np.array(ens.cdf(xs))
    if qs is not None:
        out["ppf"] = np.array(ens.ppf(qs))
    return out


def state_equal(ctx, key, a, b, msg, ancil=True, exact=True, rtol=1e-12):
    """Two snapshots are the same"""
    ok = ctx.true(key + ":class", a["cls"] == b["cls"], "%s: class %s, expected %s" % (msg, a["cls"], b["cls"]))
    ok &= ctx.true(key + ":npdf", a["npdf"] == b["npdf"], "%s: npdf %s, expected %s" % (msg, a["npdf"], b["npdf"]))
    ok &= ctx.true(key + ":shape", a["shape"] == b["shape"], "%s: shape %s, expected %s" % (msg, a["shape"], b["shape"]))
    for part in ("meta", "obj"):
        ok &= dict_equal(ctx, key + ":" + part, a[part], b[part], "%s: %s" % (msg, part), exact=exact, rtol=rtol)
    if ancil:
        if (a["ancil"] is None) != (b["ancil"] is None):
            ctx.fail(key + ":ancil", "%s: ancil is %s, expected %s" % (msg, a["ancil"], b["ancil"]))
            ok = False
        elif a["ancil"] is not None:
            ok &= dict_equal(ctx, key + ":ancil", a["ancil"], b["ancil"], "%s: ancil" % msg)
    for part in ("pdf", "cdf", "ppf"):
        if part in a and part in b:
            ok &= close_vals(ctx, key + ":" + part, a[part], b[part], "%s: %s" % (msg, part))
    return ok


def dict_equal(ctx, key, got, want, msg, exact=True, rtol=1e-12):
    """Dictionaries of arrays are the same"""
    if set(got.keys()) != set(want.keys()):
        ctx.fail(key, "%s: keys %s, expected %s" % (msg, sorted(got), sorted(want)))
        return False
    ok = True
    for k in want:
        g, w = np.asarray(got[k]), np.asarray(want[k])
        if exact or w.dtype.kind not in "fc":
            ok &= ctx.true(key, same(g, w), "%s[%s] differs" % (msg, k), got=g, want=w)
        else:
            fin = np.abs(w[np.isfinite(w)])
            atol = 1e-14 * (fin.max() if fin.size else 0.0)
            ok &= ctx.close(key, g, w, rtol=rtol, atol=atol, msg="%s[%s]" % (msg, k))
    return ok


def probe_points(case, rng, n=7):
    """Points and quantiles used to compare ensembles made from a case"""
    return np.sort(case.points(rng, n)), np.sort(rng.uniform(0.03, 0.97, size=3 if case.kind == "spline" else 5))


def gauss_nodes(edges, order=8):
    """Gauss-Legendre nodes and weights on each interval"""
    t, w = np.polynomial.legendre.leggauss(order)
    edges = np.asarray(edges, float)
    mid, half = 0.5 * (edges[1:] + edges[:-1]), 0.5 * np.diff(edges)
    return mid[:, None] + half[:, None] * t, half[:, None] * w


def subranges(rng, n):
    """A random partition of range(n) into contiguous slices"""
    cuts = np.sort(rng.choice(np.arange(1, n), size=int(rng.integers(0, n)), replace=False)) if n > 1 else np.array([], int)
    edges = [0] + [int(c) for c in cuts] + [n]
    return list(zip(edges[:-1], edges[1:]))


def ref_row_cdf_pairs(case, xs):
    return np.array([case.ref.cdf(i, xs) for i in range(case.npdf)])


def pit_samples(ens, truth):
    """The PIT samples of an ensemble, without making a distribution of them if that is possible"""
    from qp.metrics.pit import PIT

    func = getattr(PIT, "_gather_pit_samples", None)
    return np.asarray(PIT(ens, truth).pit_samps) if func is None else func(ens, truth)
