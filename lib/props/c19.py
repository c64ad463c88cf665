import csv
import os
import time

import conc
from common import digest, rng_for

csv.field_size_limit(10 ** 9)
RULE = ("Several forked processes finish executions (or parts of a batch) at the same time, with delays injected at randomly chosen lines of "
        "each; the shared file starts out absent, empty or with earlier entries, and is watched by a reader meanwhile. Non-trivial: a "
        "distinct set of delays with at least two executions that overlap in time.")
REQUIRE = {"tracker_rows": 500, "aggregate_rows": 300, "contended_groups": 70, "wide_rows": 40, "snapshots": 300, "killed_writers": 60}
WALL_LIMIT = 400


def jobs(r, tier):
    out = []
    big = tier != "quick"
    for i in range(1500 if big else 110):
        out.append({"kind": "tracker", "procs": r.choice([2, 3, 4, 6, 8]), "runs": r.choice([1, 2, 3]), "seed": r.randrange(10 ** 9),
                    "before": r.choice([0, 0, 1, 3]), "empty": r.random() < 0.15})
    for i in range(500 if big else 40):
        out.append({"kind": "batch", "procs": r.choice([2, 3, 4, 8]), "runs": r.choice([6, 12, 20]), "seed": r.randrange(10 ** 9),
                    "wide": r.random() < 0.35})
    for i in range(400 if big else 40):
        out.append({"kind": "wide", "procs": r.choice([2, 3, 5]), "runs": r.choice([2, 4]), "seed": r.randrange(10 ** 9)})
    for i in range(16 if big else 8):
        out.append({"kind": "kill", "seed": r.randrange(10 ** 9), "before": r.choice([0, 1]), "part": i, "of": 16 if big else 8,
                    "points": 200 if big else 12})
    r.shuffle(out)
    return out


def tiny(r, mark, ident):
    return dict(n=r.choice([2, 3, 5]), k=r.choice([1, 2, 3]), a0=0.3, seed=mark, max_iterations=r.choice([1, 2]), execution_id=ident,
                generate_graphs=False, metrics=[1], cost_min=1e-3, cost_max=2e-3, iterations_after_convergence=1)


def rows_of(path):
    with open(path, newline="") as f:
        text = f.read()
    return text, list(csv.reader(text.splitlines(True)))


def audit(ctx, path, expected, before, what, key):
    """expected: {identifier: row}; before: text of the file at the start."""
    text, rows = rows_of(path)
    ctx.check(text.startswith(before), "earlier content of a shared file changed (%s)" % what, before=before[-200:], now=text[:len(before)][-200:])
    if not ctx.check(bool(rows) and text.endswith("\n"), "a shared file is empty or ends in the middle of a row (%s)" % what, tail=text[-200:]):
        return
    head = rows[0]
    ctx.check(key in head, "the first line of a shared file is not its header (%s)" % what, first=head[:12])
    ctx.check(sum(1 for x in rows if x == head) == 1, "the header of a shared file is not there exactly once (%s)" % what,
              headers=[i for i, x in enumerate(rows) if x == head], rows=len(rows))
    if key not in head:
        return
    col = head.index(key)
    bad = [x for x in rows if len(x) != len(head)]
    ctx.check(not bad, "a row of a shared file is not intact (%s)" % what, row=str(bad[:1])[:300], columns=len(head))
    n_before = len(list(csv.reader(before.splitlines(True)))) or 1
    got = sorted(x[col] for x in rows[n_before:] if len(x) > col)
    ctx.check(got == sorted(expected), "the rows of a shared file are not one per execution (%s)" % what,
              missing=sorted(set(expected) - set(got))[:5], extra=sorted(set(got) - set(expected))[:5], rows=len(rows), expected=len(expected))
    for x in rows[n_before:]:
        want = expected.get(x[col]) if len(x) == len(head) else None
        if want:
            wrong = {k: (v, x[head.index(k)]) for k, v in want.items() if k not in head or x[head.index(k)] != v}
            ctx.check(not wrong, "a row of a shared file does not belong to its execution (%s)" % what, wrong=str(wrong)[:500])
    return len(rows) - n_before


class Watch:
    """Reads the file while it is being written: what is there never disappears."""

    def __init__(self, path):
        self.path, self.last, self.n = path, "", 0

    def look(self, ctx):
        try:
            with open(self.path, newline="") as f:
                text = f.read()
        except FileNotFoundError:
            ctx.check(not self.last, "a shared file disappeared while it was written to")
            return
        self.n += 1
        ctx.check(text.startswith(self.last), "what had been written to a shared file was lost or changed", before=self.last[-200:],
                  now=text[:len(self.last)][-200:])
        self.last = text


def finish_all(ctx, children, watch, what):
    import select
    pending = {c.r: c for c in children}
    t0 = time.time()
    while time.time() - t0 < conc.TIMEOUT:
        ready = select.select(list(pending), [], [], 0.002)[0]
        watch.look(ctx)
        if len(ready) == len(pending):
            break
        time.sleep(0.001)
    out = []
    for c in children:
        res = c.result()
        if res.get("hung"):
            ctx.violation("%s does not finish" % what)
        elif "died" in res:
            ctx.violation("%s died" % what, status=res["died"])
        elif "error" in res:
            ctx.violation("%s failed: %s" % (what, res["error"]), trace=res["trace"])
        else:
            out.append(res["ok"])
    watch.look(ctx)
    ctx.count("snapshots", watch.n)
    return out if len(out) == len(children) else None


def overlapping(groups):
    return any(a[0] < b[1] and b[0] < a[1] for i, x in enumerate(groups) for y in groups[:i] for a in x for b in y)


def launch(fs):
    gate = os.pipe()
    children = [conc.Child(f, gate) for f in fs]
    os.close(gate[0])
    os.close(gate[1])
    return children


def one_run(r, mark, ident):
    import sut
    m = sut.make(tiny(r, mark, ident))
    t = time.time()
    with sut.quiet():
        m.run_model()
    return str(m.seq_id), {"descriptor": ident, "n": str(m.n), "k": str(m.reward_scheme.k), "#pools": str(len(m.pools)),
                           "activation order": m.agent_activation_order}, [t, time.time()]


def setup_tracker(job, ctx, r):
    path = os.path.join("output", "experiment-tracker.csv")
    for i in range(job["before"]):
        one_run(r, i, "earlier-%d" % i)
    if job.get("empty") and not job["before"]:
        os.makedirs("output", exist_ok=True)
        open(path, "w").close()
    return path, (open(path, newline="").read() if os.path.exists(path) else "")


def delays(r, seed):
    return conc.Lines(conc.delayer(rng_for("delays", seed), r.choice([0.05, 0.15, 0.4]), r.choice([0.001, 0.004, 0.01])))


def run(job, ctx):
    import sut  # noqa: F401
    import custom_batchrunner  # noqa: F401
    r = rng_for("c19", job["seed"])
    globals()[job["kind"]](job, ctx, r)


def tracker(job, ctx, r):
    path, before = setup_tracker(job, ctx, r)
    seeds = [r.randrange(10 ** 9) for _ in range(job["procs"])]

    def process(i):
        rr = rng_for("runs", seeds[i])

        def f():
            with delays(rr, seeds[i]):
                return [one_run(rr, 100 * (i + 1) + j, "p%d-%d" % (i, j)) for j in range(job["runs"])]
        return f
    out = finish_all(ctx, launch([process(i) for i in range(job["procs"])]), Watch(path), "an execution that runs at the same time as others")
    if out is None:
        return
    expected = {n: row for x in out for n, row, _ in x}
    ctx.check(len(expected) == job["procs"] * job["runs"], "two executions have the same number in the experiment tracker")
    n = audit(ctx, path, expected, before, "experiment tracker", "id")
    ctx.count("tracker_rows", n or 0)
    if overlapping([[t for _, _, t in x] for x in out]):
        ctx.count("contended_groups")
        ctx.seen("tracker/%s" % digest(seeds))
    ctx.sample({"rows": n, "processes": job["procs"], "before": len(before)})


def batch(job, ctx, r):
    """A batch with several processes, delays in each of them."""
    import custom_batchrunner
    import sut
    k = list(range(1, job["runs"] + 1))
    p = tiny(r, 0, "x")
    for name in ("execution_id", "seed", "metrics"):
        p.pop(name)
    p.update(k=k, n=4, max_iterations=2)
    path = os.path.join("output", "1-b", "aggregate-results-1-b.csv")
    seed = r.randrange(10 ** 9)

    cls = wide_simulation() if job["wide"] else sut.sim.Simulation

    def f():
        with delays(r, seed), sut.quiet():
            t = time.time()
            results, d = custom_batchrunner.custom_batch_run(
                cls, parameters=p, batch_run_id="b", number_processes=job["procs"], iterations=1, max_steps=2,
                display_progress=False, initial_seed=5)
        return [[str(d), len(results), [t, time.time()]]]
    out = finish_all(ctx, launch([f]), Watch(path), "a batch run")
    if out is None:
        return
    ctx.check(os.path.realpath(out[0][0][0]) == os.path.realpath(os.path.dirname(path)), "the batch has another folder than it should",
              got=out[0][0][0])
    n = audit(ctx, path, {str(x): {"seed": "5"} for x in k}, "", "aggregate results", "k")
    ctx.count("aggregate_rows", n or 0)
    if os.path.exists(path) and max(map(len, open(path))) > 9000:
        ctx.count("wide_rows", n or 0)
    ctx.count("contended_groups")
    ctx.seen("batch/%d" % seed)
    # the experiment tracker is shared by the parts of the batch as well (those that ended by themselves)
    text, rows = rows_of(os.path.join("output", "experiment-tracker.csv"))
    ctx.check(rows[0][0] == "id" and sum(1 for x in rows if x == rows[0]) == 1 and all(len(x) == len(rows[0]) for x in rows),
              "the experiment tracker is not intact after a batch", rows=rows[:3])
    ctx.sample({"rows": n, "processes": job["procs"]})


def wide_value(m):
    return "w%d," % m.schedule.steps * 2500


def wide_simulation():
    """A simulation that also collects long values, so that a row of the aggregate results exceeds any buffer."""
    import sut
    if "WideSimulation" not in globals():
        class WideSimulation(sut.sim.Simulation):
            def __init__(self, **kw):
                super().__init__(**kw)
                for i in range(3):
                    self.datacollector._new_model_reporter("Wide%d" % i, wide_value)
        WideSimulation.__qualname__ = "WideSimulation"
        globals()["WideSimulation"] = WideSimulation
    return globals()["WideSimulation"]


def wide(job, ctx, r):
    """Rows that are longer than any buffer, through the function that appends to the shared files, from several processes."""
    import inspect
    import sut
    f = getattr(sut.sim.hlp, "write_to_csv", None)
    if f is None or list(inspect.signature(f).parameters)[:3] != ["filepath", "header", "row"]:
        return   # an internal function: the rows of batches (above) are long as well
    path = "wide.csv"
    header = ["id"] + ["c%d" % i for i in range(20)]
    seeds = [r.randrange(10 ** 9) for _ in range(job["procs"])]

    def process(i):
        def f():
            out = []
            with delays(rng_for("w", seeds[i]), seeds[i]):
                for j in range(job["runs"]):
                    t = time.time()
                    name = "%d-%d" % (i, j)
                    row = [name] + [chr(97 + i) * (10 + 700 * (x % 3) * (j + 1)) + ("," if x == 5 else "") + ("\n" if x == 7 else "") for x in range(20)]
                    sut.sim.hlp.write_to_csv(path, header, row)
                    out.append([name, {"c0": row[1], "c5": row[6], "c7": row[8], "c19": row[20]}, [t, time.time()]])
            return out
        return f
    out = finish_all(ctx, launch([process(i) for i in range(job["procs"])]), Watch(path), "a process that appends to a shared file")
    if out is None:
        return
    n = audit(ctx, path, {a: b for x in out for a, b, _ in x}, "", "long rows", "id")
    ctx.count("wide_rows", n or 0)
    if overlapping([[t for _, _, t in x] for x in out]):
        ctx.count("contended_groups")
        ctx.seen("wide/%s" % digest(seeds))


def kill(job, ctx, r):
    """A writer is killed at some line; the others' rows and those of later ones still arrive, and earlier content stays."""
    path, _ = setup_tracker(job, ctx, r)

    def dry():
        with conc.Lines(lambda *a: None) as lines:
            one_run(rng_for(1), 1, "dry")
        return lines.count
    res = conc.alone(dry)
    total = res["ok"]
    done = [x for x in rows_of(path)[1]]
    points = sorted({max(1, total - r.randrange(1, max(2, total // 3))) for _ in range(job["points"])})
    for i, point in enumerate(points):
        before = open(path, newline="").read()

        def killed():
            with conc.Lines(conc.killer(point)):
                return one_run(rng_for(1), 1, "killed-%d" % i)
        conc.alone(killed)
        ctx.count("killed_writers")
        res = conc.alone(lambda: one_run(rng_for(2), 2, "later-%d" % i))
        if "ok" not in res:
            ctx.violation("an execution after one that was killed failed or hung", result=str(res)[:500], point=point)
            return
        text, rows = rows_of(path)
        ctx.check(text.startswith(before), "an execution that was killed destroyed earlier content of a shared file", point=point)
        new = rows[len(done):]
        ident = [x[rows[0].index("descriptor")] for x in new if len(x) == len(rows[0])]
        ctx.check(len(new) in (1, 2) and ident.count("later-%d" % i) == 1 and len(ident) == len(new) and
                  rows.count(rows[0]) == 1, "the rows after a killed writer are not intact", new=str(new)[:400], point=point)
        done = rows
        ctx.seen("kill/%d/%d" % (job["before"], point))
