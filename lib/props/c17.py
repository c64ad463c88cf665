import json
import os
import time

import conc
from common import digest, rng_for

LEVEL = "fault_enumeration"
RULE = ("Executions start in forked processes (or threads) in one directory: several at once with delays injected at randomly chosen lines, "
        "one killed at each of the lines executed by a start, into folders that are taken, one after the other through the different "
        "entry points. Non-trivial: a distinct set of delays that was run by at least two starts at once, a distinct kill point, or a "
        "distinct history.")
REQUIRE = {"concurrent_starts": 600, "contended_groups": 60, "kill_points": 250, "starts_after_kill": 250, "taken_folders": 20,
           "sequential_starts": 100, "thread_starts": 100, "batch_starts": 40}
WALL_LIMIT = 400


def jobs(r, tier):
    out = []
    big = tier != "quick"
    for i in range(1200 if big else 110):
        out.append({"kind": "concurrent", "procs": r.choice([2, 3, 4, 4, 6]), "starts": r.choice([1, 2, 3]), "seed": r.randrange(10 ** 9),
                    "before": r.choice([0, 0, 0, 1, 3, 9]), "batch": r.random() < 0.3})
    for i in range(60 if big else 12):
        out.append({"kind": "threads", "procs": r.choice([2, 4, 8]), "starts": 4, "seed": r.randrange(10 ** 9), "before": r.choice([0, 2])})
    parts = 16
    for before in ((0, 1, 9, 99) if big else (0, r.choice([1, 9]))):
        for i in range(parts):
            out.append({"kind": "kill", "part": i, "of": parts, "before": before, "run": big or before != 0, "batch": False,
                        "seed": r.randrange(10 ** 9), "step": 1 if big else None})
    for i in range(parts if big else 4):
        out.append({"kind": "kill", "part": i, "of": parts, "before": r.choice([0, 1, 9]), "run": False, "batch": True,
                    "seed": r.randrange(10 ** 9), "step": 1 if big else None})
    for i in range(160 if big else 40):
        out.append({"kind": "taken", "seed": r.randrange(10 ** 9), "batch": r.random() < 0.3})
    for i in range(60 if big else 14):
        out.append({"kind": "history", "seed": r.randrange(10 ** 9), "length": r.choice([8, 15, 25])})
    r.shuffle(out)
    return out


def tiny(mark, ident="x"):
    return dict(n=3, k=2, a0=0.3, seed=mark, max_iterations=1, execution_id=ident, generate_graphs=False, metrics=[1], cost_min=1e-3,
                cost_max=2e-3, iterations_after_convergence=1)


def start(mark, ident="x"):
    """Start an execution: gives its number and folder."""
    import sut
    m = sut.make(tiny(mark, ident))
    return {"n": m.seq_id, "dir": str(m.directory), "mark": mark, "model": m}


def start_batch(mark, ident="b"):
    import custom_batchrunner
    import sut
    p = tiny(mark)
    p.pop("execution_id")
    p.pop("seed")
    p.pop("metrics")
    with sut.quiet():
        _, path = custom_batchrunner.custom_batch_run(sut.sim.Simulation, parameters=p, batch_run_id=ident, number_processes=1, iterations=1,
                                                      max_steps=1, display_progress=False, initial_seed=mark)
    name = os.path.basename(str(path))
    return {"n": int(name.split("-")[0]), "dir": str(path), "mark": mark, "batch": True}


def strip(x):
    return {k: v for k, v in x.items() if k != "model"}


def owner(folder):
    """The mark of the execution that wrote the arguments file of a folder."""
    for sub in [folder] + [os.path.join(folder, d) for d in sorted(os.listdir(folder))]:
        try:
            with open(os.path.join(sub, "args.json")) as f:
                return json.load(f)["seed"]
        except (OSError, ValueError):
            continue
    return None


def content(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for n in dirs:
            out[os.path.join(base, n)] = "dir"
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.join(base, n)] = digest(f.read().hex())
    return out


def good(ctx, res, what):
    if res.get("hung"):
        ctx.violation("%s does not finish" % what)
    elif "died" in res:
        ctx.violation("%s died" % what, status=res["died"])
    elif "error" in res:
        ctx.violation("%s failed: %s" % (what, res["error"]), trace=res["trace"])
    else:
        return True
    return False


def check_unique(ctx, starts, above, what):
    numbers = [s["n"] for s in starts]
    ctx.check(len(set(numbers)) == len(numbers), "two executions got the same serial number (%s)" % what, numbers=numbers)
    dirs = [s["dir"] for s in starts]
    ctx.check(len(set(dirs)) == len(dirs), "two executions got the same folder (%s)" % what, dirs=dirs)
    ctx.check(all(n > above for n in numbers), "a serial number did not increase (%s)" % what, numbers=numbers, before=above)
    for s in starts:
        ctx.check(os.path.isdir(s["dir"]) and owner(s["dir"]) == s["mark"], "a folder does not belong to the execution that it was given to (%s)"
                  % what, start=s)


def run(job, ctx):
    import sut  # noqa: F401
    import custom_batchrunner  # noqa: F401
    r = rng_for("c17", job["seed"])
    last = 0
    for i in range(job.get("before", 0)):
        s = start(5000 + i)
        ctx.check(s["n"] > last, "a serial number did not increase (one execution after the other)", got=s["n"], before=last)
        last = s["n"]
    globals()[job["kind"]](job, ctx, r, last)


def concurrent(job, ctx, r, last):
    seeds = [r.randrange(10 ** 9) for _ in range(job["procs"])]
    share = r.choice([0.05, 0.2, 0.5])

    def process(i):
        rr = rng_for("delays", seeds[i])
        entry = start_batch if job["batch"] and i % 2 else start

        def f():
            out = []
            with conc.Lines(conc.delayer(rr, share, r.choice([0.001, 0.004, 0.01]))):
                for j in range(job["starts"]):
                    t = time.time()
                    s = strip(entry(100 * (i + 1) + j, "same"))
                    out.append(dict(s, t=[t, time.time()]))
            return out
        return f
    results = conc.together([process(i) for i in range(job["procs"])])
    ok = [good(ctx, x, "an execution that starts at the same time as others") for x in results]
    if not all(ok):
        return
    starts = [s for x in results for s in x["ok"]]
    for x in results:
        ns = [s["n"] for s in x["ok"]]
        ctx.check(ns == sorted(ns), "a serial number did not increase (concurrent starts)", numbers=ns)
    check_unique(ctx, starts, last, "started at the same time")
    ctx.count("concurrent_starts", len(starts))
    ctx.count("batch_starts", sum(1 for s in starts if s.get("batch")))
    if any(a["t"][0] < b["t"][1] and b["t"][0] < a["t"][1] for i, x in enumerate(results) for y in results[:i] for a in x["ok"]
           for b in y["ok"]):
        ctx.count("contended_groups")
        ctx.seen("concurrent/%s" % digest(seeds))
    ctx.sample({"numbers": [[s["n"] for s in x["ok"]] for x in results], "before": last})


def threads(job, ctx, r, last):
    import sys
    import threading
    import sut

    def f():
        out, errors = [], []
        # threads share one standard output, so it is not redirected per start

        def go(i):
            try:
                for j in range(job["starts"]):
                    mark = 100 * (i + 1) + j
                    m = sut.sim.Simulation(**tiny(mark, "same"))
                    out.append({"n": m.seq_id, "dir": str(m.directory), "mark": mark})
            except Exception as ex:
                errors.append("%s: %s" % (type(ex).__name__, ex))
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=go, args=(i,)) for i in range(job["procs"])]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return {"out": out, "errors": errors}
    res = conc.alone(f)
    if good(ctx, res, "a process that starts executions in several threads"):
        if ctx.check(not res["ok"]["errors"], "an execution that starts in a thread failed", errors=res["ok"]["errors"]):
            check_unique(ctx, res["ok"]["out"], last, "started in threads")
            ctx.count("thread_starts", len(res["ok"]["out"]))


def kill(job, ctx, r, last):
    """Kill a start at a line; then the next one has to work."""
    entry = start_batch if job["batch"] else start

    def victim(mark):
        s = entry(mark)
        if job["run"] and "model" in s:
            import sut
            with sut.quiet():
                s["model"].run_model()
        return strip(s)

    def dry():
        with conc.Lines(lambda *a: None) as lines:
            s = victim(1)
        return {"lines": lines.count, "start": s}
    res = conc.alone(dry)
    if not good(ctx, res, "an execution"):
        return
    total = res["ok"]["lines"]
    known = [res["ok"]["start"]]
    step = job["step"] or max(1, total // 320)
    points = list(range(1 + job["part"] * step, total + 1, job["of"] * step))
    ctx.count("lines_of_an_execution", total if job["part"] == 0 else 0)
    for i, point in enumerate(points):
        def killed():
            with conc.Lines(conc.killer(point)):
                return victim(2000 + i)
        before = {s["dir"]: content(s["dir"]) for s in known[-3:]}
        taken = set(os.listdir("output"))
        res = conc.alone(killed)
        if "died" not in res:
            good(ctx, res, "an execution")
            continue
        ctx.count("kill_points")
        left = set(os.listdir("output")) - taken
        highest = max([s["n"] for s in known] + [int(d.split("-")[0]) for d in left if d.split("-")[0].isdigit()])
        res = conc.alone(lambda: strip(start(3000 + i)))
        if good(ctx, res, "the execution after one that was killed"):
            s = res["ok"]
            ctx.count("starts_after_kill")
            check_unique(ctx, known[-3:] + [s], last, "after a kill")
            ctx.check(s["n"] > highest, "a serial number did not increase after an execution was killed", got=s["n"], highest=highest,
                      point=point, of=total)
            ctx.check({d: content(d) for d in before} == before, "a start changed what an earlier execution left", point=point)
            known.append(s)
            ctx.seen("kill/%s/%s/%d/%d" % (job["batch"], job["run"], job["before"], point))
        if ctx.violations:
            break
    ctx.sample({"lines": total, "points": points[:5], "numbers": [s["n"] for s in known][:8]})


def taken(job, ctx, r, last):
    """The next number's folder is there already: it must not be touched."""
    entry = start_batch if job["batch"] else start
    for i in range(r.randrange(0, 3)):
        s = start(10 + i, "x")
        last = s["n"]
    name = "%d-%s" % (last + 1, "x")
    below = r.choice(["", "", "", "7-batch", "a/b"]) if not job["batch"] else ""
    folder = os.path.join("output", below, name)
    if below or not job["batch"] and r.random() < 0.2:
        # an execution whose number (and batch) is given, as the batch runner does
        number = last + 1

        def entry(mark, ident):
            import sut
            return {"dir": str(sut.make(dict(tiny(mark, ident), seq_id=number, parent_dir=below)).directory)}
    os.makedirs(folder)
    kind = r.choice(["empty", "file", "args", "sub"])
    if kind == "file":
        open(os.path.join(folder, "notes.txt"), "w").write("mine")
    elif kind == "args":
        open(os.path.join(folder, "args.json"), "w").write('{"seed": 99}')
        open(os.path.join(folder, "metrics.csv"), "w").write("Round\n")
    elif kind == "sub":
        os.makedirs(os.path.join(folder, "figures"))
    before = content(folder)
    res = conc.alone(lambda: strip(entry(7, "x")))
    after = content(folder)
    ctx.check(after == before, "an execution touched a folder that was there before", before=before, after=after)
    if "ok" in res:
        ctx.check(os.path.realpath(res["ok"]["dir"]) != os.path.realpath(folder), "an execution used a folder that was there before",
                  start=res["ok"])
    ctx.count("taken_folders")
    ctx.seen("taken/%s/%s/%s/%d" % (kind, job["batch"], below, last))
    # and the executions after it work
    res = conc.alone(lambda: strip(start(8, "y")))
    if good(ctx, res, "the execution after one that found its folder taken"):
        check_unique(ctx, [res["ok"]], last, "after a taken folder")


def history(job, ctx, r, last):
    """Executions one after the other through different entry points, some of them complete, some with other names."""
    import cli
    import sut
    known = []
    programs = 0
    for i in range(job["length"]):
        kind = r.choice(["start", "start", "run", "batch", "explicit", "fail", "clean"])
        if programs < 1 and r.random() < 0.1:
            kind = "program"
        mark = 10 + i
        before = {s["dir"]: content(s["dir"]) for s in known[-4:]}
        if kind in ("start", "run"):
            s = start(mark, r.choice(["x", "x", "a b", "", "x-%d" % i]))
            if kind == "run":
                with sut.quiet():
                    s["model"].run_model()
        elif kind == "batch":
            s = start_batch(mark, r.choice(["x", "b"]))
            ctx.count("batch_starts")
        elif kind == "explicit":
            # a number that was asked for is used as it is and does not interfere with the counter
            m = sut.make(dict(tiny(mark, "explicit"), seq_id=900 + i))
            ctx.check(m.seq_id == 900 + i and os.path.basename(str(m.directory)) == "%d-explicit" % (900 + i),
                      "a serial number that was asked for was not used", got=m.seq_id)
            continue
        elif kind == "fail":
            # an execution that fails to start uses up a number at most
            try:
                sut.make(dict(tiny(mark, "bad"), stake_distr_source="file", n=3333))
            except Exception:
                pass
            continue
        elif kind == "clean":
            # the results may be deleted; the numbers go on
            import shutil
            shutil.rmtree("output", ignore_errors=True)
            before = {}
            s = start(mark)
        else:
            programs += 1
            code, out, err = cli.run("main.py", cli.argv(dict(tiny(mark, "prog"), metrics=[1])))
            dirs = [d for d in os.listdir("output") if d.endswith("-prog")]
            if not ctx.check(code == 0 and dirs, "the program failed", err=err[-600:]):
                return
            d = max(dirs, key=lambda x: int(x.split("-")[0]))
            s = {"n": int(d.split("-")[0]), "dir": os.path.abspath(os.path.join("output", d)), "mark": mark}
        s = strip(s)
        check_unique(ctx, [s], last, "one after the other: %s" % kind)
        ctx.check(all(s["dir"] != x["dir"] for x in known), "two executions got the same folder (one after the other)", start=s)
        ctx.check(s["n"] not in [x["n"] for x in known], "two executions got the same serial number (one after the other)", start=s)
        ctx.check({d: content(d) for d in before} == before, "an execution changed what an earlier one left", kind=kind)
        last = s["n"]
        known.append(s)
        ctx.count("sequential_starts")
    ctx.seen("history/%d" % job["seed"])
    ctx.sample({"numbers": [s["n"] for s in known]})
