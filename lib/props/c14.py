import copy
import json
import os
import shutil

import scen
import simprop
from common import digest, rng_for

RULE = simprop.RULE + ("Each configuration is run several times: alone, after other simulations and with the global generators disturbed, "
                       "interleaved with or in a thread next to another simulation, with other metrics and graphs, from a separate "
                       "process with another hash seed, from the recorded seed or arguments file. Non-trivial: a distinct "
                       "(configuration, kind of repetition) whose run opened pools.")
REQUIRE = {"repeats": 60, "interleavings": 40, "processes": 10, "unseeded": 15, "threads": 10, "from_args_file": 10,
           "seed_pairs": 100, "shared_lists": 10}
KINDS = [("repeat", 5), ("interleave", 4), ("observe", 2), ("unseeded", 1.5), ("args", 1.5), ("threads", 1.5), ("process", 1.2),
         ("seeds", 2)]


def jobs(r, tier):
    out = []
    for c in simprop.configs(r, 420 if tier == "quick" else 6000, inactive=0.2):
        kind = scen.pick(r, KINDS)
        c["max_iterations"] = c["max_iterations"] if isinstance(c["max_iterations"], list) else min(c["max_iterations"], 30)
        if c["n"] > 40:
            c["n"] = 40
            c.pop("_stakes", None)
            if c["stake_distr_source"] == "file":
                c["stake_distr_source"] = "Pareto"
        if kind in ("interleave", "threads", "seeds"):
            c.pop("_stakes", None)
            if c["stake_distr_source"] == "file":
                c["stake_distr_source"] = "Pareto"
        c["metrics"] = [1, 2, 9, 27, 29]
        out.append({"kind": kind, "cfg": c, "seed": r.randrange(10 ** 9)})
    return out


def trajectory():
    import sut
    from view import view

    class T(sut.Monitor):
        def __init__(self):
            self.states = []

        def attach(self, m):
            self.note(m)

        def note(self, m):
            V = view(m)
            V["rankings"] = [[None if p is None else p.id for p in x] for x in (m.pool_rankings, m.pool_rankings_myopic)]
            self.states.append(digest(V))

        def step_end(self, m):
            self.note(m)
            self.running = m.running
    return T()


def solo(cfg):
    import sut
    t = trajectory()
    m = sut.run(cfg, [t])
    return t.states, m


def same(ctx, a, b, how, cfg, **info):
    first = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    ctx.check(a == b, "the same arguments and seed gave another run (%s)" % how, lengths=[len(a), len(b)], first_difference=first, **info)


def sibling(r, cfg):
    """Another simulation that has most things in common with this one."""
    c = dict(cfg, stake_distr_source="Pareto" if cfg["stake_distr_source"] == "file" else cfg["stake_distr_source"])
    c.pop("_stakes", None)
    for key in r.sample(["reward_scheme", "a0", "extra_pool_cost_fraction", "k", "agent_activation_order", "n", "cost_max",
                         "agent_profile_distr", "inactive_stake_fraction"], r.choice([1, 1, 2])):
        if key == "inactive_stake_fraction":
            c[key], c[key + "_known"] = 0.1, r.random() < 0.5
        elif key == "k":
            c[key] = r.randrange(1, 9)
        elif key == "n":
            c[key] = c[key] + r.choice([1, 2, 5])
        elif key == "cost_max":
            c[key] = c[key] * 2 + 1e-3
        else:
            c[key] = r.choice({"reward_scheme": [0, 1, 2, 3], "a0": [0.1, 0.3, 1], "extra_pool_cost_fraction": [0.1, 0.4, 1],
                               "agent_activation_order": ["random", "sequential", "simultaneous"],
                               "agent_profile_distr": [[1, 0, 0], [1, 1, 0], [0, 1, 0]]}[key])
    return c


def disturb(r, cfg):
    """What else may go on in a process between two runs."""
    import random
    import numpy
    import sut
    random.seed(r.randrange(100))
    numpy.random.seed(r.randrange(100))
    for _ in range(r.randrange(50)):
        random.random()
        numpy.random.random()
    if r.random() < 0.7:
        c = sibling(r, cfg) if r.random() < 0.6 else scen.cfg(r, "tiny")
        c["max_iterations"] = 6
        m = sut.make(simprop.valid(c))
        with sut.quiet():
            for _ in range(r.randrange(1, 6)):
                if m.running:
                    m.step()


def run(job, ctx):
    import sut
    r = rng_for("c14", job["seed"])
    cfg, kind = job["cfg"], job["kind"]
    if kind in ("repeat", "interleave") and r.random() < 0.5:
        cfg = dict(copy.deepcopy(cfg), _share=True)   # the very same list objects are passed each time
        ctx.count("shared_lists", scen.n_phases(cfg) > 1)
    if kind == "repeat":
        a, m = solo(cfg)
        for _ in range(2):
            disturb(r, cfg)
            b, _m = solo(cfg)
            ctx.count("repeats")
            same(ctx, a, b, "repeated in the same process, after other simulations", cfg)
    elif kind == "interleave":
        a, m = solo(cfg)
        other = simprop.valid(scen.cfg(r, "tiny"))
        other["max_iterations"] = 12
        other["stake_distr_source"] = "Pareto"
        b, _m = solo(other)
        if r.random() < 0.3:
            other, b = dict(cfg), a   # two copies of the same simulation side by side
        models = []
        for c in ((cfg, other) if r.random() < 0.5 else (other, cfg)):
            models.append((c, sut.make(c), trajectory(), a if c is cfg else b))
        with contextlib_all([sut.watched(m1, [t]) for _, m1, t, _ in models]), sut.quiet():
            while any(x[1].running for x in models):
                c, m1, t, _ = r.choice([x for x in models if x[1].running])
                m1.step()
        for c, m1, t, want in models:
            ctx.count("interleavings")
            same(ctx, want, t.states, "interleaved with another simulation", c)
    elif kind == "threads":
        import sys
        import threading
        a, m = solo(cfg)
        other = dict(cfg, seed=cfg["seed"] + 1, k=cfg["k"])
        b, _m = solo(other)
        models = [(c, sut.make(c), trajectory(), want) for c, want in ((cfg, a), (other, b))]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            with contextlib_all([sut.watched(m1, [t]) for _, m1, t, _ in models]), sut.quiet():
                def go(m1):
                    while m1.running:
                        m1.step()
                ts = [threading.Thread(target=go, args=(x[1],)) for x in models]
                [t.start() for t in ts]
                [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        for c, m1, t, want in models:
            ctx.count("threads")
            same(ctx, want, t.states, "run in a thread next to another one", c)
    elif kind == "observe":
        a, m = solo(cfg)
        ids = r.sample(scen.ALL_METRICS if cfg["reward_scheme"] != 4 else [1, 3, 9, 10, 14, 20, 22, 26], 6)
        b, _m = solo(dict(cfg, metrics=ids, generate_graphs=r.random() < 0.15, execution_id="other"))
        ctx.count("repeats")
        same(ctx, a, b, "with other metrics, graphs or name", cfg, metrics=ids)
    elif kind == "unseeded":
        disturb(r, cfg)
        a, m = solo(dict(cfg, seed=None))
        with open(m.directory / "initial-state-descriptors.json") as f:
            seed = json.load(f)["Randomness seed"]
        disturb(r, cfg)
        b, _m = solo(dict(cfg, seed=seed))
        ctx.count("unseeded")
        same(ctx, a, b, "repeated with the seed that the first run recorded", cfg, recorded=seed)
    elif kind == "args":
        a, m = solo(cfg)
        os.replace(m.directory / "args.json", "args.json")
        disturb(r, cfg)
        t = trajectory()
        with sut.quiet():
            m2 = sut.sim.Simulation(input_from_file=True)
        sut.run(None, [t], model=m2)
        ctx.count("from_args_file")
        same(ctx, a, t.states, "repeated from the recorded arguments file", cfg)
    elif kind == "process":
        import cli
        cli.single_phase(cfg)
        for _ in range(2):
            disturb(r, cfg)
        shutil.rmtree("output", ignore_errors=True)
        a, m = solo(cfg)
        seeds = r.sample(range(1, 1000), 2)
        procs = [cli.start("main.py", cli.argv(cfg), PYTHONHASHSEED=str(h)) for h in seeds]
        outs = [p.communicate(timeout=400) for p in procs]
        dirs = [d for d in os.listdir("output") if os.path.isdir("output/" + d) and d != m.directory.name]
        if not ctx.check(all(p.returncode == 0 for p in procs) and len(dirs) == 2, "the program failed on arguments that the simulation "
                         "accepts", out=outs[0][1][-800:], argv=cli.argv(cfg)):
            return
        for d in dirs:
            ctx.count("processes")
            for name in ("metrics.csv", "final-state-descriptors.json", "initial-state-descriptors.json", "final-state-pools-*",
                         "final-state-stakeholders-*"):
                one, two = content(str(m.directory), name), content("output/" + d, name)
                ctx.check(one == two, "the same arguments and seed gave another run (in a process of its own, with another hash seed)",
                          file=name, here=one[:300], there=two[:300], hash_seeds=seeds)
    elif kind == "seeds":
        c = dict(cfg, stake_distr_source="Pareto", n=max(cfg["n"], 5))
        pops = []
        seeds = {c["seed"], c["seed"] + 1, r.randrange(10 ** 7), 0, c["seed"] * r.choice([2, 10, 1000]),
                 c["seed"] + 2 ** r.randrange(1, 24), c["seed"] + 10 ** r.randrange(1, 8), c["seed"] + 2 ** r.choice([8, 16, 31, 32, 33])}
        for s in sorted(seeds):
            m = sut.make(dict(c, seed=s))
            pops.append([(a.stake, a.cost, type(a).__name__) for a in m.schedule.agents])
        for i in range(len(pops)):
            for j in range(i):
                ctx.count("seed_pairs")
                ctx.check([x[0] for x in pops[i]] != [x[0] for x in pops[j]], "different seeds gave the same stakes", cfg=c)
                if c["cost_max"] > c["cost_min"]:
                    ctx.check([x[1] for x in pops[i]] != [x[1] for x in pops[j]], "different seeds gave the same costs", cfg=c)
        ctx.seen("seeds/" + simprop.key(cfg))
        return
    ctx.count("kind_" + kind)
    if m.pools:
        ctx.seen(kind + "/" + simprop.key(cfg))
    ctx.sample(dict(simprop.summary(cfg, m), kind=kind))


def content(folder, pattern):
    prefix = pattern.rstrip("*")
    names = [n for n in os.listdir(folder) if n == pattern or (pattern.endswith("*") and n.startswith(prefix))]
    if len(names) != 1:
        return "no such file"
    with open(os.path.join(folder, names[0])) as f:
        return f.read()


class contextlib_all:
    def __init__(self, cms):
        self.cms = cms

    def __enter__(self):
        for c in self.cms:
            c.__enter__()

    def __exit__(self, *exc):
        for c in reversed(self.cms):
            c.__exit__(*exc)
