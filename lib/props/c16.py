import copy
import csv
import json
import os
import pickle
import statistics
from math import fsum

import scen
import simprop
from common import close, digest

csv.field_size_limit(10 ** 9)

RULE = simprop.RULE + ("Two or three runs share a directory; every file of each is parsed after its end and compared with the live "
                       "state. Non-trivial: a distinct configuration whose run ended with pools.")
REQUIRE = {"runs_audited": 100, "pool_rows": 300, "agent_rows": 1500, "metric_values": 10000, "pickles": 60, "rounds_continued": 120, "figures": 20, "graphs_with_several_equilibria": 8, "graphs_compared": 20, "stacked_layers": 20,
           "tracker_rows": 100, "generated_names": 10}


def jobs(r, tier):
    out = []
    for i in range(170 if tier == "quick" else 3000):
        cfgs = simprop.configs(r, r.choice([1, 2, 2, 3]), inactive=0.3)
        for c in cfgs:
            if c["n"] > 40:
                c["n"] = 40
                c.pop("_stakes", None)
                if c["stake_distr_source"] == "file":
                    c["stake_distr_source"] = "Pareto"
            c["max_iterations"] = c["max_iterations"] if isinstance(c["max_iterations"], list) else r.choice([1, 2, 5, 15, 40])
            pool = [x for x in scen.ALL_METRICS if not (c["reward_scheme"] == 4 and x == 8)]
            c["metrics"] = r.choice([None, pool, r.sample(pool, r.randrange(1, 9)), r.sample(pool, 4)])
            if r.random() < 0.12:
                c["generate_graphs"] = True
                c["metrics"] = r.sample(pool, 5)
                if r.random() < 0.5:
                    c["metrics"] = [26] + [x for x in c["metrics"] if x != 26][:3]
            c["execution_id"] = r.choice(["", "", "run", "run", "my run-1", "temp", "x" * 60])
            if r.random() < 0.15:
                c["parent_dir"] = r.choice(["sub", "a/b"])
            if r.random() < 0.1:
                c["seed"] = r.choice([None, 0])
            if c["agent_profile_distr"] == [1, 0, 0] and r.random() < 0.5:
                c["agent_profile_distr"] = None
        out.append({"kind": "runs", "cfgs": cfgs, "seed": r.randrange(10 ** 9)})
    for i in range(16 if tier == "quick" else 300):   # graphs with several equilibria and changes of parameters
        c = simprop.configs(r, 1, size="tiny", phases=0)[0]
        scen.with_phases(r, c, r.sample(["k", "a0", "absolute_utility_threshold", "relative_utility_threshold"], r.choice([1, 2])))
        c.update(n=min(c["n"], 15), iterations_after_convergence=r.choice([1, 1, 2]), max_iterations=80, generate_graphs=True,
                 metrics=r.sample([x for x in range(1, 8)] + [26], 3), execution_id="graphs")
        if c["stake_distr_source"] == "file":
            c.pop("_stakes", None)
            c["stake_distr_source"] = "Pareto"
        out.insert(r.randrange(len(out)), {"kind": "runs", "cfgs": [simprop.valid(c)], "seed": r.randrange(10 ** 9)})
    return out


def read_csv(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def tree(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), folder)] = digest(f.read().hex())
    return out


def num(s):
    return float(s)


def near(s, x, decimals=15):
    return abs(num(s) - x) <= 0.6 * 10 ** -decimals + 1e-12 * abs(x)


class Pictures:
    """Records what is drawn in every figure that gets saved while it is active."""

    def __enter__(self):
        import matplotlib.figure
        self.taken = []
        self.cls, self.real = matplotlib.figure.Figure, matplotlib.figure.Figure.savefig

        def savefig(fig, where, *args, **kw):
            self.taken.append((os.path.basename(str(where)), [contents(ax) for ax in fig.axes]))
            return self.real(fig, where, *args, **kw)
        self.cls.savefig = savefig
        return self

    def __exit__(self, *exc):
        self.cls.savefig = self.real


def contents(ax):
    import numpy as np
    lines = [([float(x) for x in line.get_xdata()], [float(y) for y in line.get_ydata()]) for line in ax.lines]
    ax.get_xlim(), ax.get_ylim()   # settles the limits
    box, hidden = ax.bbox, []
    for xs, ys in lines:
        if ys != [0.0, 1.0]:
            with np.errstate(all="ignore"):
                at = ax.transData.transform(list(zip(xs, ys))).tolist()
            hidden += [p for p, (x, y) in zip(zip(xs, ys), at) if p[0] == p[0] and p[1] == p[1] and
                       not (box.x0 - 1 <= x <= box.x1 + 1 and box.y0 - 1 <= y <= box.y1 + 1)]
    layers = [[(float(x), float(y)) for path in c.get_paths() for x, y in path.vertices] for c in ax.collections]
    return {"lines": lines, "hidden": hidden, "layers": layers, "texts": [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]}


def check_line(ctx, name, drawn, values, m):
    """A graph of a metric: its values over the rounds, the equilibria and the changes of parameters."""
    lines = [x for ax in drawn for x in ax["lines"]]
    values = [float(v) for v in values]
    ok = any(len(ys) == len(values) and all(a == b or (a != a and b != b) for a, b in zip(ys, values)) and
             xs == [float(i) for i in range(len(values))] for xs, ys in lines)
    ctx.check(ok, "a graph does not show the values of its metric", metric=name, values=values[:30], lines=str(lines)[:600])
    hidden = [p for ax in drawn for p in ax["hidden"]]
    ctx.check(not hidden, "a value lies outside the visible part of a graph", metric=name, hidden=hidden[:5], values=values[:30])
    texts = " ".join(t for ax in drawn for t in ax["texts"])
    ctx.check(name in texts, "a graph does not name its metric", metric=name, texts=texts)
    upright = sorted(xs[0] for xs, ys in lines if len(xs) == 2 and xs[0] == xs[1] and ys == [0.0, 1.0])
    want = sorted(float(x) for x in m.equilibrium_steps)
    if len(values) > 1 or not want:
        ctx.check(upright == want, "a graph does not mark the equilibria", metric=name, drawn=upright, equilibria=want)
    marks = sorted((x, y) for xs, ys in lines if len(xs) == 1 and len(values) > 1 for x, y in zip(xs, ys))
    want = sorted((float(i), values[i]) for i in m.pivot_steps)
    if len(values) > 1 and all(y == y for _, y in want):
        ctx.check(marks == want, "a graph does not mark the parameter changes", metric=name, drawn=marks, changes=want)


def check_stack(ctx, drawn, values):
    """A stacked graph: in every round after the first, the layers are as thick as the entries of the list."""
    layers = [x for ax in drawn for x in ax["layers"]]
    if len(values) < 2:
        return
    if not ctx.check(len(layers) == len(values[0]), "the stacked graph does not have one layer per value", layers=len(layers),
                     expected=len(values[0])):
        return
    ctx.count("stacked_layers", len(layers))
    for i, layer in enumerate(layers):
        at = {}
        for x, y in layer:
            at.setdefault(x, []).append(y)
        ctx.check(sorted(at) == [float(x) for x in range(1, len(values))], "the stacked graph does not show all rounds",
                  got=sorted(at)[:20], rounds=len(values))
        for x, ys in at.items():
            if x == int(x) and 1 <= x < len(values):
                ctx.check(abs(max(ys) - min(ys) - float(values[int(x)][i])) < 1e-6, "a layer of the stacked graph is not as thick as its "
                          "value", layer=i, round=x, drawn=max(ys) - min(ys), expected=float(values[int(x)][i]))


def run(job, ctx):
    import monitors
    import sut
    done = []
    tracker_before = []
    for cfg in job["cfgs"]:
        live = dict(cfg)
        if live["agent_profile_distr"] is None:
            live["agent_profile_distr"] = [1, 0, 0]
        start = {}

        class Start(sut.Monitor):
            def attach(self, m):
                from view import view
                start["V"] = view(m)

        class Watch(monitors.Phases):
            """Only follows who moves: whether the last phase came to rest is compared with the report."""
            def fail(self, *args, **kw):
                return True
        watch = Watch(ctx, live, "end")
        with Pictures() as pictures:
            m = sut.run(cfg, [Start(), watch])
        audit(ctx, cfg, m, start["V"], len(done) + 1, watch, pictures.taken)
        tracker = read_csv("output/experiment-tracker.csv") if os.path.exists("output/experiment-tracker.csv") else []
        ctx.check(tracker[:len(tracker_before)] == tracker_before, "earlier entries of the experiment tracker changed",
                  before=tracker_before[-2:], after=tracker[-3:])
        ctx.check(len(tracker) == len(done) + 2, "the experiment tracker does not have one entry per run", rows=tracker[-3:],
                  runs=len(done) + 1)
        tracker_before = tracker
        check_tracker(ctx, m, tracker, len(done) + 1)
        for folder, content in done:
            ctx.check(tree(folder) == content, "a run changed the files of an earlier one", folder=folder)
        done.append((str(m.directory), tree(str(m.directory))))
        simprop.note(ctx, live, m)
        go_on(ctx, m)


def go_on(ctx, m):
    """The saved simulation goes on exactly as the one that it is a copy of."""
    import sut
    from view import view
    with open(os.path.join(str(m.directory), "simulation-object.pkl"), "rb") as f:
        m2 = pickle.load(f)
    for i in range(2):
        for x in (m, m2):
            with sut.quiet():
                x.schedule.step()
        ctx.count("rounds_continued")
        a, b = view(m), view(m2)
        if not ctx.check(a == b, "the saved simulation does not go on as the original does", differs=[k for k in a if a[k] != b[k]], round=i):
            return


def check_tracker(ctx, m, rows, seq):
    from view import SCHEMES, view
    import metrics_ref
    if len(rows) < 2:
        return
    V = view(m)
    head, row = rows[0], rows[-1]
    ctx.count("tracker_rows")
    got = dict(zip(head, row))
    ids = m.directory.name
    want = {"id": str(seq), "n": str(len(V["agents"])), "k": str(V["k"]), "a0": str(V["a0"]), "phi": str(V["phi"]),
            "activation order": V["order"], "#pools": str(len(V["pools"])),
            "#operators": str(len({p["owner"] for p in V["pools"].values()})), "descriptor": ids[ids.index("-") + 1:]}
    for name, x in want.items():
        ctx.check(got.get(name) == x, "the experiment tracker does not describe the run (%s)" % name, got=got, expected=want)
    ctx.check(SCHEMES.get(got.get("reward function")) == V["scheme"], "the experiment tracker names another reward function", got=got)
    ok = metrics_ref.expected(V, "Nakamoto coefficient")
    if ok:
        ctx.check(ok[0](int(got["nakamoto coeff"])), "the experiment tracker has a wrong Nakamoto coefficient", got=got)


def audit(ctx, cfg, m, V0, seq, watch, pictures):
    import metrics_ref
    import numpy
    import ref
    from view import view
    V = view(m)
    ctx.count("runs_audited")
    d = str(m.directory)
    name = os.path.basename(d)
    parent = os.path.join(os.getcwd(), "output", cfg.get("parent_dir", ""))
    ctx.check(os.path.realpath(os.path.dirname(d)) == os.path.realpath(parent), "the output is not where it should be", folder=d)
    if cfg["execution_id"] in ("", "temp"):
        ctx.count("generated_names")
        k = "-".join(map(str, cfg["k"])) if isinstance(cfg["k"], list) else str(cfg["k"])
        ctx.check(name.startswith("%d-n-%d-k-%s-" % (seq, cfg["n"], k)), "a generated name does not tell the run's parameters",
                  name=name, cfg=cfg)
    else:
        ctx.check(name == "%d-%s" % (seq, cfg["execution_id"]), "the output folder is not named after the serial number and id",
                  name=name, seq=seq, id=cfg["execution_id"])
    files = sorted(os.listdir(d))
    expected = sorted(["args.json", "initial-state-descriptors.json", "final-state-descriptors.json", "metrics.csv",
                       "simulation-object.pkl", "final-state-pools-%s.csv" % name, "final-state-stakeholders-%s.csv" % name] +
                      (["figures"] if cfg["generate_graphs"] else []))
    if not ctx.check(files == expected, "the output folder does not hold the expected files", got=files, expected=expected):
        return
    # arguments
    with open(os.path.join(d, "args.json")) as f:
        args = json.load(f)
    for key, x in cfg.items():
        if key[0] == "_" or (key in ("metrics", "agent_profile_distr") and x is None):
            continue
        ctx.check(args.get(key) == x, "the arguments file does not have the arguments of the run", argument=key, got=args.get(key),
                  expected=x)
    # initial state
    with open(os.path.join(d, "initial-state-descriptors.json")) as f:
        first = json.load(f)
    st = [float(a["stake"]) for a in V0["agents"].values()]
    want = {"Active stake": fsum(st), "Max stake": max(st), "Min stake": min(st), "Mean stake": fsum(st) / len(st),
            "Median stake": statistics.median(st), "Standard deviation of stake": statistics.pstdev(st)}
    for key, x in want.items():
        ctx.check(close(float(first[key]), x, 1e-8, 1e-12), "the initial state is not described as it is (%s)" % key, got=first,
                  expected=want)
    if cfg["seed"] is not None:
        ctx.check(first["Randomness seed"] == cfg["seed"], "the reported seed is not the one that was given", got=first)
    else:
        ctx.check(isinstance(first["Randomness seed"], int), "no seed is reported", got=first)
    ctx.check(min(metrics_ref.majority(st)) <= int(first["Nakamoto coefficient prior"]) <= max(metrics_ref.majority(st)),
              "the initial Nakamoto coefficient is wrong", got=first, expected=metrics_ref.majority(st))
    ok, e = metrics_ref.expected(V0, "Cost efficient stakeholders")
    ctx.check(ok(int(first["Cost efficient agents"])), "the initial number of cost efficient agents is wrong", got=first, expected=e)
    # final state
    with open(os.path.join(d, "final-state-descriptors.json")) as f:
        last = json.load(f)
    ctx.check(int(last["Pool count"]) == len(V["pools"]), "the final pool count is wrong", got=last)
    ctx.check(int(last["Operator count"]) == len({p["owner"] for p in V["pools"].values()}), "the final operator count is wrong", got=last)
    ctx.check(abs(float(last["Total pledge fraction"]) - fsum(p["pledge"] for p in V["pools"].values())) <= 0.5e-4 + 1e-9,
              "the final pledge is wrong", got=last)
    e = metrics_ref.expected(V, "Nakamoto coefficient")
    if e:
        ctx.check(e[0](int(last["Nakamoto coefficient"])), "the final Nakamoto coefficient is wrong", got=last, expected=e[1])
    ctx.check(last["Equilibrium reached"] == ("Yes" if watch.ended else "No"), "the final report is wrong about the equilibrium",
              got=last, moved_in_the_last_rounds=not watch.ended)
    # pools
    rows = read_csv(os.path.join(d, "final-state-pools-%s.csv" % name))
    head = ["Pool id", "Owner id", "Owner stake", "Pool Pledge", "Pool stake", "Owner cost", "Pool cost", "Pool margin", "Pool PP",
            "Pool desirability"]
    ctx.check(rows[0] == head, "the pools file has another header", got=rows[0])
    ctx.check(sorted(int(x[0]) for x in rows[1:]) == sorted(V["pools"]), "the pools file does not list each pool once",
              got=[x[0] for x in rows[1:]], expected=sorted(V["pools"]))
    for x in rows[1:]:
        p = V["pools"].get(int(x[0]))
        if p is None:
            continue
        ctx.count("pool_rows")
        a = V["agents"][p["owner"]]
        good = int(x[1]) == p["owner"] and all(near(s, y) for s, y in zip(
            x[2:8], [a["stake"], p["pledge"], p["stake"], a["cost"], p["cost"], p["margin"]])) and \
            close(num(x[8]), p["pp"]) and close(num(x[9]), p["des"])
        ctx.check(good, "a row of the pools file is not what the pool is at the end", row=dict(zip(head, x)), pool=p, owner=a)
    # stakeholders
    rows = read_csv(os.path.join(d, "final-state-stakeholders-%s.csv" % name))
    head = ["Agent id", "Initial stake", "Cost", "Potential Profit", "Status", "Pools owned", "Total pool stake",
            "Pool splitting profit", "Profitable pool splitter"]
    ctx.check(rows[0] == head, "the stakeholders file has another header", got=rows[0])
    ctx.check(sorted(int(x[0]) for x in rows[1:]) == sorted(V["agents"]), "the stakeholders file does not list each agent once",
              got=[x[0] for x in rows[1:]])
    for x in rows[1:]:
        a = V["agents"].get(int(x[0]))
        if a is None:
            continue
        ctx.count("agent_rows")
        mine = [p for p in V["pools"].values() if p["owner"] == a["id"]]
        status = "Abstainer" if a["kind"] == "abstainer" else ("Operator" if mine else "Delegator")
        split = (1 + V["a0"]) * (1 - V["phi"]) * a["cost"] - a["stake"] * V["a0"]
        good = near(x[1], V0["agents"][a["id"]]["stake"]) and near(x[2], a["cost"]) and \
            near(x[3], ref.potential_profit(V, a["stake"], a["cost"]), 12) and x[4] == status and int(x[5]) == len(mine) and \
            close(num(x[6]), fsum(p["stake"] for p in mine), 1e-9, 1e-12) and close(num(x[7]), split, 1e-9, 1e-15) and \
            (abs(split) < 1e-15 or x[8] == ("YES" if split > 0 else "NO"))
        ctx.check(good, "a row of the stakeholders file is not what the agent is at the end", row=dict(zip(head, x)), agent=a,
                  pools=mine, splitting=split)
    # metrics
    rows = read_csv(os.path.join(d, "metrics.csv"))
    mv = m.datacollector.model_vars
    length = max(len(v) for v in mv.values())
    ctx.check(rows[0][0] == "Round" and sorted(rows[0][1:]) == sorted(mv), "the metrics file has other columns", got=rows[0],
              expected=list(mv))
    ids = cfg["metrics"]
    if ids is not None:
        ctx.check(sorted(rows[0][1:]) == sorted(metrics_ref.NAMES[i] for i in ids), "the metrics file does not have the requested metrics",
                  got=rows[0], requested=ids)
    ctx.check([x[0] for x in rows[1:]] == [str(i) for i in range(length)], "the metrics file does not have one row per round",
              got=[x[0] for x in rows[1:]][-5:], rounds=length)
    for i, x in enumerate(rows[1:]):
        for col, s in zip(rows[0][1:], x[1:]):
            v = mv[col][i]
            ctx.count("metric_values")
            good = s == str(v) if isinstance(v, (list, dict)) else float(s) == float(v)
            ctx.check(good, "the metrics file has another value than the one collected", metric=col, round=i, got=s[:200],
                      expected=str(v)[:200])
    # saved object
    with open(os.path.join(d, "simulation-object.pkl"), "rb") as f:
        m2 = pickle.load(f)
    ctx.count("pickles")
    W = view(m2)
    if W != V:
        diff = [k for k in V if V[k] != W[k]]
        ctx.violation("the saved simulation restores to another state", differs=diff)
    for a, b in ((m.pool_rankings, m2.pool_rankings), (m.pool_rankings_myopic, m2.pool_rankings_myopic)):
        ctx.check([p and p.id for p in a] == [p and p.id for p in b], "the saved simulation restores to other rankings")
    ctx.check(m2.datacollector.model_vars == mv and m2.random.getstate() == m.random.getstate() and
              list(m2.equilibrium_steps) == list(m.equilibrium_steps) and m2.running == m.running,
              "the saved simulation has other results")
    ctx.check(m2.has_converged() == m.has_converged() and list(m2.pivot_steps) == list(m.pivot_steps) and
              str(m2.directory) == str(m.directory) and m2.max_iterations == m.max_iterations,
              "the saved simulation has another status", saved=[m2.has_converged(), m2.pivot_steps, m2.directory, m2.max_iterations],
              live=[m.has_converged(), m.pivot_steps, m.directory, m.max_iterations])
    # graphs
    if cfg["generate_graphs"]:
        pics = os.listdir(os.path.join(d, "figures"))
        for col, values in mv.items():
            if isinstance(values[0], dict):
                continue
            ctx.count("figures")
            mine = [x for x in pics if (x.startswith("poolDynamics") if isinstance(values[0], list) else x.endswith(name + "-" + col + ".png"))]
            ok = len(mine) == 1 and open(os.path.join(d, "figures", mine[0]), "rb").read(8) == b"\x89PNG\r\n\x1a\n"
            ctx.check(ok, "there is no graph of a metric", metric=col, files=pics)
            drawn = [axes for file, axes in pictures if ok and file == mine[0]]
            if ok and ctx.check(len(drawn) == 1, "a graph was not drawn exactly once", metric=col, drawn=[f for f, _ in pictures]):
                ctx.count("graphs_compared")
                if len(m.equilibrium_steps) > 1:
                    ctx.count("graphs_with_several_equilibria")
                if isinstance(values[0], list):
                    check_stack(ctx, drawn[0], values)
                else:
                    check_line(ctx, col, drawn[0], values, m)
