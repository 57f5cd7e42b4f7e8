"""C33: ensembles used from several threads at once give what they give when used from one."""
import copy
import hashlib
import os
import random
import shutil
import sys
import threading
import time
import warnings

import numpy as np

import qp
from gens import gen_ancil, gen_case
from lib import probe_points, snapshot
from monitors import fingerprint

warnings.filterwarnings("ignore")
HOME = os.path.dirname(os.path.abspath(qp.__file__)) + os.sep


class Scheduler:
    """Runs threads one at a time, and switches at lines of qp that a seeded generator picks

    A thread waits for its turn for half a second at most: when the one whose turn it is waits for
    a lock, all of them run freely, so that code that takes locks is never stopped by the harness.
    """

    def __init__(self, seed, num, rate):
        self.rnd = random.Random(seed)
        self.rate = rate
        self.cond = threading.Condition()
        self.alive = set(range(num))
        self.turn = None
        self.free = False
        self.waiting = 0
        self.num = num
        self.trace = hashlib.sha1()
        self.switches = 0

    def start(self, me):
        with self.cond:
            self.waiting += 1
            if self.waiting == self.num:
                self.turn = self.rnd.randrange(self.num)
                self.cond.notify_all()
            self._await(me, 30.0)

    def _await(self, me, limit=0.5):
        end = time.monotonic() + limit
        while self.turn != me and not self.free:
            left = end - time.monotonic()
            if left <= 0:
                self.free = True
                self.cond.notify_all()
                return
            self.cond.wait(left)

    def point(self, me, frame):
        if self.free:
            if self.rnd.random() < self.rate:
                time.sleep(0)
            return
        if self.rnd.random() >= self.rate:
            return
        with self.cond:
            if self.free:
                return
            other = self.rnd.choice(sorted(self.alive))
            if other == me:
                return
            self.switches += 1
            self.trace.update(("%i>%i %s:%i;" % (me, other, frame.f_code.co_name, frame.f_lineno)).encode())
            self.turn = other
            self.cond.notify_all()
            self._await(me)

    def stop(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = self.rnd.choice(sorted(self.alive))
            self.cond.notify_all()


def together(ctx, jobs, rate):
    """Run the jobs in threads of their own, return their results or exceptions"""
    sched = Scheduler(int(ctx.rng.integers(1 << 30)), len(jobs), rate)
    out = [None] * len(jobs)

    def work(me):
        def tracer(frame, event, _arg):
            if not frame.f_code.co_filename.startswith(HOME):
                return None
            if event == "line":
                sched.point(me, frame)
            return tracer

        sched.start(me)
        sys.settrace(tracer)
        try:
            out[me] = jobs[me]()
        except Exception as exc:  # pylint: disable=broad-except
            out[me] = exc
        finally:
            sys.settrace(None)
            sched.stop(me)

    threads = [threading.Thread(target=work, args=(me,), daemon=True) for me in range(len(jobs))]
    for thr in threads:
        thr.start()
    for thr in threads:
        thr.join()
    ctx.ev("switches", sched.switches)
    ctx.ev("threads", len(jobs))
    if sched.free:
        ctx.ev("schedules given up")
    elif sched.switches:
        ctx.seen("interleaving", sched.trace.hexdigest()[:16])
    return out


def free(ctx, jobs):
    """Run the jobs in threads that the interpreter switches as often as it can"""
    keep = sys.getswitchinterval()
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(me):
        gate.wait()
        try:
            out[me] = jobs[me]()
        except Exception as exc:  # pylint: disable=broad-except
            out[me] = exc

    threads = [threading.Thread(target=work, args=(me,), daemon=True) for me in range(len(jobs))]
    sys.setswitchinterval(1e-6)
    try:
        for thr in threads:
            thr.start()
        for thr in threads:
            thr.join()
    finally:
        sys.setswitchinterval(keep)
    ctx.ev("threads", len(jobs))
    return out


def judge(ctx, got, want, msg):
    """The result of a thread is that of the same call made alone"""
    if isinstance(want, Exception):
        ctx.true("result", type(got) is type(want), "%s: %r, alone %r" % (msg, got, want))
        return
    if isinstance(got, Exception):
        ctx.fail("exception", "%s: %s: %s" % (msg, type(got).__name__, got))
        return
    if isinstance(want, dict):
        if not ctx.true("result", sorted(got) == sorted(want), "%s: %s, alone %s" % (msg, sorted(got), sorted(want))):
            return
        for key, val in want.items():
            judge(ctx, got[key], val, "%s[%s]" % (msg, key))
        return
    if isinstance(want, (str, bytes, tuple)) or want is None:
        ctx.true("result", got == want, "%s: %s, alone %s" % (msg, got, want))
        return
    want = np.asarray(want)
    if want.dtype.kind in "fc":
        fin = np.abs(want[np.isfinite(want)])
        ctx.close("result", got, want, rtol=1e-9, atol=1e-12 * (fin.max() if fin.size else 1.0), msg=msg)
    else:
        ctx.equal("result", got, want, msg)


def alone(job):
    try:
        return job()
    except Exception as exc:  # pylint: disable=broad-except
        return exc


# ---------------------------------------------------------------------------
# what threads do

EVAL = ["pdf", "cdf", "sf", "ppf", "isf", "logpdf", "logcdf", "gridded", "mode", "slice", "rows", "histogramize", "moment", "tables", "rvs", "mean", "convert", "copy", "stack", "integrate"]


def operation(name, case, rng):
    """A function of an ensemble that only reads it, and returns plain data"""
    xs = np.sort(case.points(rng, int(rng.integers(2, 6))))
    qs = np.sort(rng.uniform(0.1, 0.9, size=int(rng.integers(1, 4))))
    row = int(rng.integers(case.npdf))
    rows = rng.integers(0, case.npdf, size=3)
    seed = int(rng.integers(1 << 30))
    cheap = case.kind in ("hist", "mixmod", "packed_interp", "interp", "sparse") or case.variant == "scipy"
    grid = np.linspace(case.lo, case.hi, int(rng.integers(5, 9)))
    dest = ["interp", "hist", "quant", "cdf"][int(rng.integers(4))] if cheap else "interp"
    if name == "gridded":
        return lambda e: np.asarray(e.gridded(xs)[1])
    if name in ("ppf", "isf"):
        return lambda e: getattr(e, name)(qs)
    if name == "mode":
        return lambda e: e.mode(grid)
    if name == "slice":
        return lambda e: e[row].pdf(xs)
    if name == "rows":
        return lambda e: e[rows].cdf(xs)
    if name == "histogramize":
        return lambda e: e.histogramize(grid)[1]
    quick = case.kind in ("hist", "interp") or case.variant == "scipy"
    if name == "moment" and quick:
        return lambda e: e.moment(1)
    if name == "mean" and quick:
        return lambda e: np.array([np.ravel(e.mean()), np.ravel(e.std())])
    if name == "tables":
        return lambda e: {k: {kk: np.array(vv) for kk, vv in v.items()} for k, v in e.build_tables().items()}
    if name == "rvs":
        return lambda e: e.rvs(size=2, random_state=np.random.default_rng(seed))
    if name == "integrate":
        return lambda e: e.integrate((float(grid[1]), float(grid[-2])))
    if name == "copy":
        return lambda e: copy.deepcopy(e).pdf(xs)
    if name == "convert":
        def convert(e):
            if dest == "interp":
                return qp.convert(e, "interp", xvals=grid).objdata()["yvals"]
            if dest == "hist":
                return qp.convert(e, "hist", bins=grid).pdf(0.5 * (grid[1:] + grid[:-1]))
            if dest == "quant":
                return qp.convert(e, "quant", quants=np.linspace(0.05, 0.95, 7)).objdata()["locs"]
            return qp.convert(e, "hist", bins=grid).cdf(xs)
        return convert
    if name == "stack":
        return lambda e: qp.concatenate([e[row], e[row]]).pdf(xs)
    if name in ("sf", "logpdf", "logcdf", "pdf"):
        return lambda e: getattr(e, name)(xs)
    return lambda e: e.cdf(xs)


def build(case, check, anc):
    """A fresh ensemble, which computes its tables when they are first used"""
    data = case.data()
    if not check:
        data["check_input"] = False
        if case.kind == "hist":
            data["pdfs"] = np.array(case.ref.vals)
        elif case.kind in ("interp", "interp_irregular"):
            data["yvals"] = np.array(case.ref.ys)
    return qp.Ensemble(case.gen, data=data, ancil=None if anc is None else {k: np.array(v) for k, v in anc.items()})


def shared_case(ctx):
    case = gen_case(ctx)
    check = case.kind not in ("hist", "interp", "interp_irregular", "packed_interp") or ctx.rng.random() < 0.4
    anc = gen_ancil(ctx.rng, case.npdf) if ctx.rng.random() < 0.4 else None
    return case, check, anc


def shared(ctx, runner=None, num=None):
    """Threads that evaluate one ensemble, which was not used before"""
    rng = ctx.rng
    case, check, anc = shared_case(ctx)
    num = num or int(rng.choice([2, 3, 4]))
    focus = rng.random()
    names = [str(rng.choice(EVAL)) for _ in range(num)]
    if focus < 0.35:
        # the same thing, with different arguments
        names = [names[0]] * num
    funcs = [operation(name, case, rng) for name in names]
    want = [alone(lambda f=f: f(build(case, check, anc))) for f in funcs]
    ens = build(case, check, anc)
    if rng.random() < 0.3:
        # an ensemble that was used before
        ens.gridded(np.linspace(case.lo, case.hi, 4))
        ens.ppf(0.5)
    before = fingerprint(ens)
    lab = "%s%s" % (case.label, "" if check else " unchecked")
    ctx.note(lab, names)
    jobs = [lambda f=f: f(ens) for f in funcs]
    got = runner(ctx, jobs) if runner else together(ctx, jobs, float(rng.choice([0.02, 0.1, 0.4])))
    for name, g, w in zip(names, got, want):
        judge(ctx, g, w, "%s: %s, with %s at the same time" % (lab, name, names))
        ctx.ev(name)
    # and what they leave behind
    for name, f, w in zip(names, funcs, want):
        judge(ctx, alone(lambda f=f: f(ens)), w, "%s: %s afterwards" % (lab, name))
    after = fingerprint(ens)
    ctx.equal("ensemble", {k: after[k] for k in before if k in after}, before, "%s: the ensemble" % lab) if isinstance(before, dict) else ctx.equal("ensemble", after, before, "%s: the ensemble" % lab)
    ctx.seen(lab, *sorted(set(names))[:2], num)


def stress(ctx):
    """The same, with more threads, switched by the interpreter"""
    shared(ctx, runner=free, num=8)


def lives(ctx):
    """Threads that make, use, convert, write and read ensembles of their own"""
    rng = ctx.rng
    num = int(rng.choice([2, 3, 4]))
    path = os.path.join(ctx.scratch, "c33_%i" % ctx.index)
    os.makedirs(path, exist_ok=True)
    plans = []
    for me in range(num):
        case, check, anc = shared_case(ctx) if me == 0 or rng.random() < 0.6 else (gen_case(ctx, kinds=[str(rng.choice(["hist", "interp", "quant", "mixmod", "scipy", "packed"]))]), True, None)
        xs, qs = probe_points(case, rng)
        ops = [operation(str(rng.choice(EVAL)), case, rng) for _ in range(2)]
        kind = str(rng.choice(["file", "dict", "edit", "metric", "none"]))
        plans.append((case, check, anc, xs, qs, ops, kind))

    def life(me, tag):
        case, check, anc, xs, qs, ops, kind = plans[me]
        ens = build(case, check, anc)
        out = dict(state=state(ens, xs, qs))
        for k, func in enumerate(ops):
            out["op%i" % k] = func(ens)
        name = os.path.join(path, "%s_%i.hdf5" % (tag, me))
        if kind == "file":
            ens.write_to(name)
            out["read"] = state(qp.read(name), xs, qs)
        elif kind == "dict":
            qp.factory.write_dict(name, dict(a=ens, b=ens))
            got = qp.factory.read_dict(name)
            out["dict"] = {k: state(v, xs, qs) for k, v in got.items()}
        elif kind == "edit":
            other = ens[0]
            ens.append(other)
            out["edit"] = np.array(ens.pdf(xs))
        elif kind == "metric":
            out["metric"] = np.array(qp.metrics.calculate_moment(ens, 1, (case.lo, case.hi), dx=case.width() / 20))
            out["brier"] = np.array(qp.metrics.calculate_brier(ens, np.full(case.npdf, 0.5 * (case.lo + case.hi)), (case.lo, case.hi), dx=case.width() / 20))
        return out

    try:
        lab = "; ".join("%s %s" % (p[0].label, p[6]) for p in plans)
        ctx.note(lab)
        want = [alone(lambda me=me: life(me, "alone")) for me in range(num)]
        jobs = [lambda me=me: life(me, "together") for me in range(num)]
        got = free(ctx, jobs) if rng.random() < 0.2 else together(ctx, jobs, float(rng.choice([0.01, 0.05])))
        for me in range(num):
            judge(ctx, got[me], want[me], "%s: thread %i" % (lab, me))
            ctx.ev(plans[me][6])
    finally:
        shutil.rmtree(path, ignore_errors=True)
    ctx.seen(*sorted("%s %s" % (p[0].kind, p[6]) for p in plans))


def state(ens, xs, qs):
    out = snapshot(ens, xs, qs)
    if out["ancil"] is None:
        del out["ancil"]
    return out


def metrics(ctx):
    """Threads that compute metrics of the same ensembles"""
    rng = ctx.rng
    case, check, anc = shared_case(ctx)
    lim = (case.lo, case.hi)
    dx = case.width() / int(rng.integers(10, 30))
    truth = rng.uniform(case.lo, case.hi, size=case.npdf)
    point = np.linspace(case.lo, case.hi, 9)

    def pit(e):
        obj = qp.metrics.PIT(e, truth, eval_grid=np.linspace(0, 1, 11))
        return np.array(obj.pit_samps)

    table = dict(
        moment=lambda e, f: qp.metrics.calculate_moment(e, 2, lim, dx=dx),
        kld=lambda e, f: qp.metrics.calculate_kld(e, f, lim, dx=dx),
        rmse=lambda e, f: qp.metrics.calculate_rmse(e, f, lim, dx=dx),
        brier=lambda e, f: qp.metrics.calculate_brier(e, truth, lim, dx=dx),
        outlier=lambda e, f: qp.metrics.calculate_outlier_rate(e, point[1], point[-2]),
        pit=lambda e, f: pit(e),
        pdf=lambda e, f: e.pdf(point),
        gridded=lambda e, f: e.gridded(point)[1],
    )
    num = int(rng.choice([2, 3, 4]))
    names = [str(rng.choice(list(table))) for _ in range(num)]
    other = case.subset(rng.permutation(case.npdf))
    want = [alone(lambda n=n: np.array(table[n](build(case, check, anc), build(other, check, None)))) for n in names]
    ens, ens2 = build(case, check, anc), build(other, check, None)
    jobs = [lambda n=n: np.array(table[n](ens, ens2)) for n in names]
    ctx.note(case.label, names)
    got = together(ctx, jobs, float(rng.choice([0.02, 0.1])))
    for name, g, w in zip(names, got, want):
        judge(ctx, g, w, "%s: %s, with %s at the same time" % (case.label, name, names))
        ctx.ev(name)
    ctx.seen(case.label, *sorted(set(names))[:2])


EVALUATORS = ["pdf", "cdf", "sf", "ppf", "isf", "logpdf", "logcdf", "gridded", "histogramize", "moment", "rvs", "slice", "tables", "mode"]


def spread(name, case, rng):
    """An evaluation at points of its own, also ones that differ from PDF to PDF or are outside"""
    if name in ("pdf", "cdf", "sf", "logpdf", "logcdf", "ppf", "isf") and rng.random() < 0.6:
        num = int(rng.integers(1, 7))
        if name in ("ppf", "isf"):
            pts = rng.uniform(0.05, 0.95, size=(case.npdf, num))
        else:
            pts = rng.uniform(case.lo - 0.3 * case.width(), case.hi + 0.3 * case.width(), size=(case.npdf, num))
        return lambda e: getattr(e, name)(pts)
    return operation(name, case, rng)


def preempted(job, other, line):
    """Run a job; at its n-th line of qp another thread runs the other one from start to end

    The job goes on after half a second if the other one does not end, as it may wait for a lock
    that the job holds. Gives the results, and the number of lines of the job.
    """
    out = [None, None]
    seen = [0, None]
    helper = []

    def second():
        out[1] = alone(other)

    def tracer(frame, event, _arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if event == "line":
            seen[0] += 1
            if seen[0] == line:
                seen[1] = "%s:%i" % (frame.f_code.co_name, frame.f_lineno)
                thr = threading.Thread(target=second, daemon=True)
                helper.append(thr)
                thr.start()
                thr.join(0.5)
        return tracer

    def first():
        sys.settrace(tracer)
        try:
            out[0] = alone(job)
        finally:
            sys.settrace(None)

    thr = threading.Thread(target=first, daemon=True)
    thr.start()
    thr.join()
    for thr in helper:
        thr.join()
    return out[0], out[1], seen[0], seen[1], bool(helper)


def pairs(ctx):
    """One thread is stopped at each of a number of its lines, while another one runs"""
    rng = ctx.rng
    case, check, anc = shared_case(ctx)
    names = [str(rng.choice(EVALUATORS)) for _ in range(2)]
    if rng.random() < 0.6:
        names[1] = names[0]
    one, two = [spread(name, case, rng) for name in names]
    want = [alone(lambda f=f: f(build(case, check, anc))) for f in (one, two)]
    used = rng.random() < 0.5
    lab = "%s%s%s" % (case.label, "" if check else " unchecked", " used" if used else "")

    def fresh():
        ens = build(case, check, anc)
        if used:
            ens.pdf(0.5 * (case.lo + case.hi))
            ens.cdf(0.5 * (case.lo + case.hi))
        return ens

    ens = fresh()
    total = preempted(lambda: one(ens), lambda: None, -1)[2]
    ctx.note(lab, names, total)
    limit = int(rng.choice([6, 10, 20]))
    lines = np.arange(1, total + 1)
    if total > limit:
        lines = np.sort(rng.choice(lines, size=limit, replace=False))
    for line in lines:
        ens = fresh()
        first, second, _, where, done = preempted(lambda: one(ens), lambda: two(ens), int(line))
        if not done:
            continue
        judge(ctx, first, want[0], "%s: %s, stopped at %s for %s" % (lab, names[0], where, names[1]))
        judge(ctx, second, want[1], "%s: %s, while %s was at %s" % (lab, names[1], names[0], where))
        ctx.ev("preemptions")
        ctx.seen("preemption", lab, names[0], names[1], where)
    if len(lines):
        judge(ctx, alone(lambda: one(ens)), want[0], "%s: %s afterwards" % (lab, names[0]))


WORKLOADS = [("shared", shared), ("stress", stress), ("lives", lives), ("metrics", metrics), ("pairs", pairs)]
