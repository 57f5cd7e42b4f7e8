"""C16: packing to 8 bits loses no more than half a step."""
import numpy as np

import qp
from gens import RefInterp, gen_packed, ref_unpack
from lib import close_vals
from qp import packing_utils
from qp.packing_utils import PackingType, pack_array, unpack_array

LIN, LOG = PackingType.linear_from_rowmax, PackingType.log_from_rowmax


def values(ctx):
    """Non-negative arrays of many shapes, scales and contents"""
    rng = ctx.rng
    npdf, num = int(rng.choice([1, 2, 5, 9])), int(rng.choice([1, 2, 9, 40]))
    if rng.random() < 0.08:
        npdf, num = [(300, 9), (1200, 3), (3, 300), (2, 1500)][int(rng.integers(4))]
    style = int(rng.integers(0, 7))
    if style == 0:
        arr = rng.random((npdf, num))
    elif style == 1:
        arr = 10.0 ** rng.uniform(-8, 0, size=(npdf, num))
    elif style == 2:
        # exactly on, and next to, the limits between levels
        level = rng.integers(0, 255, size=(npdf, num)) + 0.5 + rng.choice([0.0, 1e-9, -1e-9], size=(npdf, num))
        arr = level / 255.0
        arr[:, int(rng.integers(num))] = 1.0
    elif style == 3:
        arr = np.full((npdf, num), rng.uniform(0.1, 3))
    elif style == 4:
        arr = np.where(rng.random((npdf, num)) < 0.6, 0.0, rng.random((npdf, num)))
        arr[np.arange(npdf), rng.integers(num, size=npdf)] = 1.0
    elif style == 5:
        # just above and below the floor
        arr = 10.0 ** (-3.0 + rng.uniform(-0.05, 0.05, size=(npdf, num)))
        arr[:, int(rng.integers(num))] = 1.0
    else:
        x = np.linspace(-3, 3, num)
        arr = np.exp(-0.5 * ((x - rng.uniform(-1, 1, size=(npdf, 1))) / rng.uniform(0.1, 1, size=(npdf, 1))) ** 2)
    arr = arr * 10.0 ** rng.uniform(-12, 12, size=(npdf, 1))
    single = rng.random() < 0.2
    if single:
        arr = arr.astype("f4")
    elif rng.random() < 0.2:
        # whole numbers, such as counts or the values of an image, up to the limit of their type
        typ = np.dtype(str(rng.choice(["u1", "i1", "u2", "i2", "u4", "i4", "i8"])))
        limit = min(np.iinfo(typ).max, 2**40) * rng.choice([1.0, rng.uniform(0.01, 1)], size=(npdf, 1))
        arr = np.maximum(arr / np.maximum(arr.max(axis=1, keepdims=True), 1e-300) * np.floor(limit), 0).astype(typ)
        arr[np.arange(npdf), rng.integers(num, size=npdf)] = np.maximum(np.floor(limit[:, 0]), 1).astype(typ)
    ctx.note("values", style, arr.shape, arr.dtype)
    return arr, style


def pack(ctx):
    rng = ctx.rng
    arr, style = values(ctx)
    given = arr.copy()
    log = bool(ctx.index % 2)
    floor = -3.0
    if log:
        kwds = {}
        if rng.random() < 0.6:
            floor = float(rng.choice([-1.0, -2.0, -3.0, -5.0, -7.5]))
            kwds["log_floor"] = floor
        packed, row_max = pack_array(LOG, arr, **kwds)
        back = unpack_array(LOG, packed, row_max=row_max, **kwds)
        # the functions behind, with the same defaults
        packed2, row_max2 = packing_utils.log_pack_from_rowmax(arr, **kwds)
        back2 = packing_utils.log_unpack_from_rowmax(packed2, row_max2, **kwds)
        ctx.equal("functions", packed2, packed, "log_pack_from_rowmax(%s), and pack_array" % kwds)
        ctx.equal("functions", back2, back, "log_unpack_from_rowmax(%s), and unpack_array" % kwds)
    else:
        packed, row_max = pack_array(LIN, arr)
        back = unpack_array(LIN, packed, row_max=row_max)
        packed2, row_max2 = packing_utils.linear_pack_from_rowmax(arr)
        ctx.equal("functions", packed2, packed, "linear_pack_from_rowmax, and pack_array")
        ctx.equal("functions", packing_utils.linear_unpack_from_rowmax(packed2, row_max2), back, "linear_unpack_from_rowmax, and unpack_array")
    lab = "%s packing (floor %g) of %s values of style %i" % ("log" if log else "linear", floor, arr.dtype, style)
    ctx.true("input", np.array_equal(arr, given), "%s: the input was modified" % lab)
    ctx.true("dtype", packed.dtype == np.uint8 and packed.shape == given.shape, "%s: packed as %s %s" % (lab, packed.dtype, packed.shape))
    top = given.max(axis=1, keepdims=True).astype(float)
    ctx.close("row_max", row_max, top, rtol=0, atol=0, msg="%s: row_max" % lab)
    v, b = given.astype(float), np.asarray(back, float)
    slack = 1e-4 if given.dtype == np.float32 else 1e-9
    # a row of zeros only (or too small for its type) has nothing to judge but its zeros
    full = top * np.ones(v.shape)
    live = full > 1e-30
    v, b, top, full = np.where(live, v, 0.0), np.where(live, b, 0.0), np.where(top > 1e-30, top, 1.0), np.where(live, full, 1.0)
    is_top = live & (v == full)
    ctx.true("max", np.all(np.abs(b[is_top] / full[is_top] - 1) < 1e-6), "%s: the maximum of a row did not survive" % lab)
    ctx.true("zero", np.all(b[v == 0] == 0), "%s: zeros became %s" % (lab, b[v == 0].max() if np.any(v == 0) else 0))
    ctx.true("range", np.all((b >= 0) & (b <= top * (1 + 1e-6))), "%s: values outside [0, row_max]" % lab)
    if log:
        step = -floor / 255.0
        above = v >= top * 10.0 ** floor * (1 + 1e-6)
        # a value within half a step of the floor may be packed as 0, which stands for zero
        near = above & (v <= top * 10.0 ** (floor + 0.52 * step))
        sure = above & ~near
        err = np.abs(np.log10(np.where(sure, b, 1.0)) - np.log10(np.where(sure, v, 1.0)))
        # the regularisation 10**(3 floor) shifts values near the floor by up to 10**(2 floor)
        lim = 0.5 * step + 0.4343 * 10.0 ** (2 * floor) + slack * step
        ctx.true("half-step", np.all(err <= lim), "%s: off by %s steps" % (lab, np.max(err) / step), values=v[err > lim], back=b[err > lim])
        lowest = top * 10.0 ** (floor + 1.51 * step + 0.4343 * 10.0 ** (2 * floor)) * np.ones(v.shape)
        ctx.true("below", np.all(b[~sure] <= lowest[~sure]), "%s: a value below the floor became %s of the maximum" % (lab, np.max((b / top)[~sure]) if np.any(~sure) else 0))
    else:
        err = np.abs(b - v) / top * 255
        ctx.true("half-step", np.all(err <= 0.5 + slack * 255), "%s: off by %s steps" % (lab, np.max(err)), values=v[err > 0.5 + slack], back=b[err > 0.5 + slack])
    # unpacking is what is documented
    ctx.close("unpack", back, ref_unpack(packed, row_max, floor, not log), rtol=1e-12 if given.dtype != np.float32 else 1e-5, atol=0, msg="%s: unpacking" % lab)
    # order within a row is kept
    order = np.argsort(given, axis=1)
    ctx.true("monotone", np.all(np.diff(np.take_along_axis(packed.astype(int), order, axis=1), axis=1) >= 0), "%s: packing is not monotone" % lab)
    # rows are independent, and packing does not depend on the units
    i = int(rng.integers(len(given)))
    alone, _ = pack_array(LOG if log else LIN, given[[i]], **(kwds if log else {}))
    ctx.true("alone", np.array_equal(alone, packed[[i]]), "%s: row %i packed alone differs" % (lab, i))
    perm = rng.permutation(len(given))
    other, _ = pack_array(LOG if log else LIN, given[perm], **(kwds if log else {}))
    ctx.true("order", np.array_equal(other, packed[perm]), "%s: packing depends on the order of the rows" % lab)
    if given.dtype == float:
        scaled, _ = pack_array(LOG if log else LIN, given * 2.0 ** int(rng.integers(-40, 40)), **(kwds if log else {}))
        ctx.true("units", np.array_equal(scaled, packed), "%s: packing depends on the units" % lab)
    # packing what was unpacked changes nothing any more
    if not log or floor <= -2:
        again, _ = pack_array(LOG if log else LIN, np.asarray(back), **(kwds if log else {}))
        off = np.abs(again.astype(int) - packed.astype(int)) * live
        ctx.true("idempotent", np.max(off) <= (0 if not single_prec(given) else 1), "%s: packing the unpacked values gives others" % lab)
    ctx.ev("packed", int(v.size))
    ctx.seen("log" if log else "linear", floor, style, v.shape, given.dtype)


def single_prec(arr):
    return arr.dtype == np.float32


def levels(ctx):
    """Every level survives unpacking and packing"""
    rng = ctx.rng
    log = bool(ctx.index % 2)
    top = 10.0 ** rng.uniform(-6, 6, size=(3, 1))
    packed = np.array([rng.permutation(256) for _ in range(3)]).astype(np.uint8)
    floor = float(rng.choice([-1.5, -2.0, -3.0, -5.0]))
    typ = LOG if log else LIN
    kwds = dict(log_floor=floor) if log else {}
    vals = unpack_array(typ, packed, row_max=top, **kwds)
    ctx.close("unpack", vals, ref_unpack(packed, top, floor, not log), rtol=1e-12, atol=0, msg="unpacking all levels, log %s floor %g" % (log, floor))
    again, top2 = pack_array(typ, vals, **kwds)
    ctx.close("row_max", top2, top, rtol=1e-12, atol=0, msg="row_max of unpacked values")
    ctx.true("levels", np.array_equal(again, packed), "%s (floor %g): %i levels changed" % (typ, floor, int(np.sum(again != packed))))
    ctx.ev("levels", 768)
    ctx.seen("levels", log, floor)


def ensemble(ctx):
    """A packed ensemble evaluates to the normalised interpolation of the unpacked values"""
    rng = ctx.rng
    case = gen_packed(rng)
    ens = case.make()
    un = ref_unpack(case.obj["ypacked"], case.obj["ymax"], case.meta.get("log_floor", -3.0), "linear" in case.variant)
    ref = RefInterp([case.meta["xvals"]] * case.npdf, un)
    xs = case.points(rng, int(rng.choice([3, case.npdf, 12])), on_knots=True)
    close_vals(ctx, "pdf", ens.pdf(xs), np.array([ref.pdf(i, xs) for i in range(case.npdf)]), "%s: pdf" % case.label, width=case.width())
    # above the first interval, see the known finding of C03
    xs = case.meta["xvals"][1:]
    ctx.close("cdf", ens.cdf(xs), np.array([ref.cdf(i, xs) for i in range(case.npdf)]), rtol=1e-9, atol=1e-9, msg="%s: cdf" % case.label)
    # from data, through the packing, to the ensemble
    x = np.sort(rng.uniform(0, 3, size=12)) + np.linspace(0, 0.01, 12)
    y = np.exp(-0.5 * ((x - rng.uniform(1, 2, size=(4, 1))) / 0.5) ** 2) * 10.0 ** rng.uniform(-3, 3, size=(4, 1))
    for typ, kwds in ((LIN, {}), (LOG, {}), (LOG, dict(log_floor=-2.0))):
        ypacked, ymax = pack_array(typ, y, **kwds)
        one = qp.packed_interp(xvals=x, ypacked=ypacked, ymax=ymax, packing_type=typ, **kwds)
        un = ref_unpack(ypacked, ymax, kwds.get("log_floor", -3.0), typ == LIN)
        area = np.sum(0.5 * np.diff(x) * (un[:, 1:] + un[:, :-1]), axis=1)
        got = qp.Ensemble(qp.packed_interp, data=dict(xvals=x, ypacked=ypacked, ymax=ymax, packing_type=typ, **kwds)).pdf(x)
        close_vals(ctx, "pipeline", got, (un.T / area).T, "%s %s: pdf at the grid" % (typ, kwds), width=3.0)
        ctx.true("object", one.npdf == 4, "packed_interp() with %s rows" % one.npdf)
    ctx.seen("ensemble", case.label)


def rejects(ctx):
    ctx.raises("type", (ValueError, KeyError, TypeError), lambda: pack_array("no such type", np.ones((2, 3))), "packing of an unknown type")
    ctx.raises("type", (ValueError, KeyError, TypeError), lambda: unpack_array("no such type", np.ones((2, 3), dtype=np.uint8), row_max=np.ones((2, 1))), "unpacking of an unknown type")
    ctx.seen("rejects")


WORKLOADS = [("pack", pack), ("levels", levels), ("ensemble", ensemble), ("rejects", rejects)]
