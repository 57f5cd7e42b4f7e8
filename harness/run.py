"""Run one check: fan its workloads out over worker processes, judge, write the evidence file."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

DEADLINE = {"quick": 480.0, "thorough": 3000.0}
TASK_LIMIT = {"quick": 240, "thorough": 900}  # wall clock: beyond it, a case is inconclusive
CPU_LIMIT = {"quick": 150, "thorough": 600}  # CPU time of one case: no case needs a tenth of it, beyond it is a hang


def read_known(prop):
    """The keys of the known findings listed for a property"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as fin:
        for line in fin:
            line = line.strip()
            if not line.startswith("known: property=%s " % prop):
                continue
            rest = line[len("known: property=%s " % prop):]
            key, _, what = rest.partition(" ")
            if key.startswith("key="):
                out[key[4:]] = what
    return out


def _alarm(_sig, _frm):
    from common import TaskTimeout

    raise TaskTimeout()


def _cpu_alarm(_sig, _frm):
    from common import CpuHang

    raise CpuHang()


def cpu_of(pid):
    """CPU time used so far by a worker process started here"""
    try:
        with open("/proc/%i/stat" % pid, encoding="utf-8") as fin:
            words = fin.read().rsplit(")", 1)[1].split()
        return (int(words[11]) + int(words[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_case(mod, prop, name, index, seed, tier, scratch):
    """Run one case in this process"""
    from common import CpuHang, Ctx, Inconclusive, TaskTimeout, exc_info_text

    ctx = Ctx(prop, name, index, seed, tier, scratch)
    base, _, mode = name.partition("+")
    func = {w[0]: w[1] for w in mod.WORKLOADS}[base]
    if mode:
        import gens

        gens.SIZE.update(mode=mode, turn=index // 9)
    out = dict(workload=name, index=index, inconclusive=None)
    cwd = os.path.join(scratch, "w%i" % os.getpid())
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    ctx.scratch = cwd
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.alarm(TASK_LIMIT[tier])
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT[tier])
    tstart = time.time()
    cstart = time.process_time()
    try:
        import warnings

        import numpy as np

        np.random.seed((seed * 1000003 + index) % (2**31))
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            func(ctx)
    except CpuHang as exc:
        if mode:
            # a large ensemble; one of ordinary size shows a hang just as well
            out["inconclusive"] = "case burnt %i s of CPU time" % CPU_LIMIT[tier]
        else:
            ctx.fail("hang", "the case burnt %i s of CPU time and did not come to an end" % CPU_LIMIT[tier], traceback=exc_info_text(exc)[-1500:])
    except TaskTimeout:
        out["inconclusive"] = "case took more than %i s" % TASK_LIMIT[tier]
    except Inconclusive as exc:
        out["inconclusive"] = str(exc)
    except MemoryError:
        out["inconclusive"] = "out of memory"
    except OSError as exc:
        if exc.errno in (28, 12, 24):
            out["inconclusive"] = "environment: %s" % exc
        else:
            ctx.fail("exception", "OSError: %s" % exc, traceback=exc_info_text(exc)[-1500:])
    except Exception as exc:  # an operation that must work raised, or its result was malformed
        ctx.fail("exception:%s" % type(exc).__name__, "%s" % exc)
        ctx.fails[-1:] and ctx.fails[-1].update(traceback=exc_info_text(exc))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if mode:
            gens.SIZE["mode"] = None
        os.chdir(scratch)
        shutil.rmtree(cwd, ignore_errors=True)
    out.update(
        events=dict(ctx.events),
        sigs=sorted(ctx.sigs),
        fails=ctx.fails,
        known=ctx.known,
        samples=ctx.samples[:2] if ctx.samples else ([" ; ".join(ctx.trail[:6])] if ctx.trail else []),
        wall=time.time() - tstart,
        cpu=time.process_time() - cstart,
    )
    return out


def worker(prop, seed, tier, scratch, tasks, results):
    """A worker process: qp is imported here, so that MPI and hdf5 state is never forked"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import logging

        logging.disable(logging.CRITICAL)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as exc:
        import traceback

        results.put(dict(fatal="can not import the check or qp: %s\n%s" % (exc, traceback.format_exc())))
        return
    while True:
        try:
            task = tasks.get(timeout=5)
        except queue.Empty:
            continue
        if task is None:
            break
        name, index = task
        results.put(dict(start=(name, index, os.getpid(), time.process_time())))
        results.put(run_case(mod, prop, name, index, seed, tier, scratch))
    results.put(dict(done=os.getpid()))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--count", type=int, help="with --only: number of cases, also of a workload that is not planned")
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    args = parser.parse_args()
    tier = args.tier if args.tier in DEADLINE else "quick"
    tstart = time.time()
    prop = args.prop

    import plan  # sizes of the workloads; does not import qp

    evdir = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None

    seed = args.seed
    tasks = []
    if args.replay:
        with open(args.replay, encoding="utf-8") as fin:
            rep = json.load(fin)
        seed, tier = rep["seed"], rep["tier"]
        tasks = [(rep["workload"], rep["index"])]
    else:
        per = plan.workloads(prop, tier)
        if args.only:
            per = {args.only: args.count} if args.count else {k: v for k, v in per.items() if k == args.only}
        # deal the workloads in turn, so that all are covered if the time runs out
        scale = args.scale
        per = {k: max(1, int(round(v * scale))) for k, v in per.items()}
        total = sum(per.values())
        order = []
        for name, num in per.items():
            order += [((i + 0.5) / num, name, i) for i in range(num)]
        order.sort()
        tasks = [(n, i) for _, n, i in order]
        assert len(tasks) == total

    ctxm = mp.get_context("fork")
    tq, rq = ctxm.Queue(), ctxm.Queue()
    njobs = min(args.jobs, len(tasks))
    for task in tasks:
        tq.put(task)
    for _ in range(njobs):
        tq.put(None)
    procs = [
        ctxm.Process(target=worker, args=(prop, seed, tier, scratch, tq, rq), daemon=True) for _ in range(njobs)
    ]
    for proc in procs:
        proc.start()

    results, running, errors = [], {}, []
    done = 0
    deadline = tstart + DEADLINE[tier]
    while done < njobs:
        try:
            res = rq.get(timeout=1.0)
        except queue.Empty:
            if time.time() > deadline:
                errors.append("deadline reached with %i of %i cases done" % (len(results), len(tasks)))
                break
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                errors.append("worker died with exit code %s while running %s" % (dead[0].exitcode, list(running.values())[:8]))
                break
            if not any(p.is_alive() for p in procs):
                break
            continue
        if "fatal" in res:
            errors.append(res["fatal"])
            break
        if "start" in res:
            running[res["start"][2]] = (res["start"][0], res["start"][1], res["start"][3])
        elif "done" in res:
            running.pop(res["done"], None)
            done += 1
        else:
            results.append(res)
        if time.time() > deadline:
            errors.append("deadline reached with %i of %i cases done" % (len(results), len(tasks)))
            break
    hung = []
    if done < njobs:
        # a case stuck in compiled code never gets the signal: ask the system what it used
        for pid, (name, index, before) in running.items():
            used = cpu_of(pid) - before
            if used > CPU_LIMIT[tier] and "+" not in name:
                hung.append(dict(key="hang", msg="the case burnt %i s of CPU time and did not come to an end" % used, details={}, trail=[], workload=name, index=index))
    for proc in procs:
        if proc.is_alive():
            proc.terminate()
    for proc in procs:
        proc.join(5)
        if proc.is_alive():
            proc.kill()
    shutil.rmtree(scratch, ignore_errors=True)

    # -- verdict -------------------------------------------------------------
    known_listed = read_known(prop)
    events, sigs = collections.Counter(), set()
    fails, known, samples, inconclusive = hung, [], [], []
    walls = collections.Counter()
    longest = (0.0, "")
    nper = collections.Counter()
    for res in results:
        events.update(res["events"])
        sigs.update(res["sigs"])
        nper[res["workload"]] += 1
        walls[res["workload"]] += res["wall"]
        longest = max(longest, (round(res["cpu"], 2), "%s/%s" % (res["workload"], res["index"])))
        if res["inconclusive"]:
            inconclusive.append("%s/%s: %s" % (res["workload"], res["index"], res["inconclusive"]))
        fails += res["fails"]
        for item in res["known"]:
            if item["key"] in known_listed:
                known.append(item)
            else:
                fails.append(dict(item, workload=res["workload"], index=res["index"], details={}, trail=[]))
        if res["samples"] and sum(1 for s in samples if s["workload"] == res["workload"]) < 2:
            samples.append(dict(workload=res["workload"], index=res["index"], case=str(res["samples"][0])[:600]))

    by_key = collections.OrderedDict()
    for item in sorted(fails, key=lambda f: (f["workload"], f["index"])):
        by_key.setdefault((item["workload"], item["key"]), []).append(item)
    lines = []
    if not args.replay and os.path.isdir(os.path.join(evdir, "replay")):
        for old in os.listdir(os.path.join(evdir, "replay")):
            if old.startswith(prop + "-"):
                os.remove(os.path.join(evdir, "replay", old))
    for num, (key, items) in enumerate(list(by_key.items())[:10]):
        path = args.replay
        if not path:
            os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
            path = os.path.join(evdir, "replay", "%s-%i.json" % (prop, num))
            from common import dump

            dump(path, dict(property=prop, seed=seed, tier=tier, workload=key[0], index=items[0]["index"], key=key[1], count=len(items), failure=items[0]))
        print("  %s [%s] x%i: %s" % (key[0], key[1], len(items), items[0]["msg"][:300]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    shown = set()
    for item in known:
        if item["key"] not in shown:
            shown.add(item["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, known_listed[item["key"]]))

    wall = time.time() - tstart
    planned = len(tasks)
    from common import dump

    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(sigs),
            rule=plan.RULE[prop],
            samples=samples[:12],
            planned_cases=planned,
            cases_per_workload=dict(nper),
            longest_case_cpu_s=list(longest),
            cpu_s_per_workload={k: round(v, 1) for k, v in walls.items()},
            monitor_events=dict(sorted(events.items())),
            distinct_situations=sorted(sigs)[:150],
            inconclusive_cases=inconclusive[:20],
            known_findings_observed=sorted(shown),
        ),
        assumptions=plan.ASSUMPTIONS.get(prop, []) + errors,
        wall_s=round(wall, 2),
        violations=[dict(workload=k[0], key=k[1], count=len(v), message=v[0]["msg"]) for k, v in list(by_key.items())[:20]],
    )
    if not args.replay:
        dump(os.path.join(evdir, prop + ".json"), evidence)
    print(
        "%s %s seed=%i: %i/%i cases, %i situations, %i verdicts, %i values, %.1f s"
        % (prop, tier, seed, len(results), planned, len(sigs), events["verdict"], events["values"], wall)
    )
    if os.environ.get("VERIF_VERBOSE"):
        print(dict(walls), dict(events), longest)
    for line in lines:
        print(line)
    sys.stdout.flush()
    if lines:
        return 1
    for err in errors + inconclusive[:5]:
        print("INCONCLUSIVE: " + err)
    if not results or events["verdict"] == 0:
        print("INCONCLUSIVE: no oracle reached a verdict")
        return 2
    if any("deadline" not in e for e in errors):
        return 2
    if len(results) - len(inconclusive) < 0.5 * planned:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
