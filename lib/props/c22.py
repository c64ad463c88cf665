import math

import scen
import simprop

RULE = simprop.RULE + ("Populations of up to 2000 agents; runs of populations with abstainers are monitored to the end. "
                       "Non-trivial: a distinct configuration.")
REQUIRE = {"populations": 100, "abstainer_runs": 20, "large_populations": 20, "series": 8, "rare_profiles": 3}


def jobs(r, tier):
    out = []
    for i in range(simprop.n_jobs(tier, 260, 4000)):
        c = scen.base_cfg(r, r.choice(["tiny", "small"]))
        scen.with_profiles(r, c)
        if r.random() < 0.3:
            c["agent_profile_distr"] = r.choice([[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 3, 5], [100, 0, 1], [0.01, 0.02, 0.01]])
        out.append({"kind": "run", "cfg": simprop.valid(c)})
    for i in range(60 if tier == "quick" else 400):
        c = scen.base_cfg(r, "small")
        c.update(n=r.choice([1000, 2000]), k=10)
        c["agent_profile_distr"] = r.choice([[1, 1, 0], [4, 2, 1], [1, 1, 1], [0, 1, 3], [0.2, 0.2, 0.6], [10, 1, 1], [0, 0, 2],
                                             [5, 0, 0], [7, 0, 3]])
        out.insert(r.randrange(len(out)), {"kind": "population", "cfg": c})
    for i in range(40 if tier == "quick" else 200):
        c = scen.base_cfg(r, "small")
        c.update(n=r.choice([60, 100, 150]), k=10, cost_min=1e-4, cost_max=1e-3)
        c["agent_profile_distr"] = r.choice([[1, 1, 0], [4, 2, 1], [1, 1, 1], [1, 1, 4], [0.2, 0.2, 0.6], [10, 1, 1], [7, 0, 3], [3, 1, 0],
                                             [1, 0.5, 0.25], [5, 5, 5], [100, 20, 3], [0, 2, 2]])
        out.insert(r.randrange(len(out)), {"kind": "series", "cfg": c, "first": r.randrange(10 ** 6)})
    for i in range(12 if tier == "quick" else 60):
        # rare profiles: with 8000 draws at these weights, none at all has a probability below 1e-9
        c = scen.base_cfg(r, "small")
        c.update(n=2000, k=10)
        w = [1, 1, 1]
        rare = r.randrange(3)
        w[rare] = r.choice([0.006, 0.008, 0.01])
        w[(rare + 1) % 3] = r.choice([0, 1])
        f = r.choice([1, 1000])
        c["agent_profile_distr"] = [x * f if f == 1 else round(x * f) for x in w]
        out.insert(r.randrange(len(out)), {"kind": "rare", "cfg": c, "first": r.randrange(10 ** 6), "rare": rare})
    return out


def series(job, ctx):
    """Populations that only differ in their seed: are the profiles independent draws, of each other and of everything else?"""
    import sut
    from view import agent_view
    cfg, runs = job["cfg"], 40
    n, w = cfg["n"], cfg["agent_profile_distr"]
    names = ["nonmyopic", "myopic", "abstainer"]
    p = [x / sum(w) for x in w]
    pops = []
    for i in range(runs):
        m = sut.make(dict(cfg, seed=job["first"] + i, execution_id="s%d" % i))
        agents = sorted(m.schedule.agents, key=lambda a: a.unique_id)
        pops.append(([names.index(agent_view(a)["kind"]) for a in agents], [float(a.stake) for a in agents],
                     [float(a.cost) for a in agents]))
    ctx.count("series")
    ctx.count("populations", runs)
    ctx.seen(simprop.key(cfg) + "/series")
    info = {"n": n, "weights": w, "first_seed": job["first"], "populations": runs}
    for j in range(3):
        if p[j] in (0, 1):
            continue
        sd = math.sqrt(n * p[j] * (1 - p[j]))
        z2 = math.fsum(((pop[0].count(j) - n * p[j]) / sd) ** 2 for pop in pops)
        # chi-square with 40 degrees of freedom: below 7 or above 120 (binomial tails are a little heavier) has probability < 1e-9
        ctx.check(7 <= z2 <= 120, "the numbers of agents per profile do not vary as those of independent draws", profile=j, chi2=z2,
                  counts=[pop[0].count(j) for pop in pops], **info)
        for what, col in (("stake", 1), ("cost", 2), ("place", None)):
            total, var = 0.0, 0.0
            for pop in pops:
                values = pop[col] if col else list(range(n))
                if min(values) == max(values):
                    continue
                order = sorted(range(n), key=lambda i: values[i])
                rank = {a: (x + 0.5) / n - 0.5 for x, a in enumerate(order)}
                total += math.fsum(rank[i] for i in range(n) if pop[0][i] == j)
                var += p[j] * (1 - p[j]) * math.fsum(x * x for x in rank.values())
            if var:
                ctx.check(abs(total) <= 6.5 * math.sqrt(var), "an agent's profile depends on their " + what, profile=j,
                          z=total / math.sqrt(var), **info)
    same = math.fsum(x * x for x in p)
    if 0.02 < same < 0.98:
        # pairs (i, i + lag): equal with probability sum p^2; the variance is at most 3 times that of independent pairs
        for lag in (1, 2, 3, 5, 10):
            pairs = [pop[0][i] == pop[0][i + lag] for pop in pops for i in range(n - lag)]
            z = (sum(pairs) - len(pairs) * same) / math.sqrt(len(pairs) * same * (1 - same) * 3)
            ctx.check(abs(z) <= 6.5, "the profiles of agents depend on each other", lag=lag, z=z, **info)
        pairs = [a == b for x, y in zip(pops, pops[1:]) for a, b in zip(x[0], y[0])]
        z = (sum(pairs) - len(pairs) * same) / math.sqrt(len(pairs) * same * (1 - same) * 3)
        ctx.check(abs(z) <= 6.5, "the profiles under one seed depend on those under the one before", z=z, **info)


def check_population(ctx, cfg, m):
    from view import agent_view
    agents = list(m.schedule.agents)
    n, w = cfg["n"], cfg["agent_profile_distr"]
    kinds = [agent_view(a)["kind"] for a in agents]
    names = ["nonmyopic", "myopic", "abstainer"]
    got = [kinds.count(x) for x in names]
    info = {"n": n, "weights": w, "profiles": got}
    ctx.count("populations")
    ctx.seen(simprop.key(cfg))
    ctx.sample(info)
    ctx.check(sum(got) == n == len(agents), "there are not exactly n agents", **info)
    for i in range(3):
        p = w[i] / sum(w)
        if p in (0, 1):
            ctx.check(got[i] == n * p, "agents got a profile of weight 0 (or not the only one possible)", **info)
        elif n >= 1000:
            sd = math.sqrt(n * p * (1 - p))
            ctx.check(abs(got[i] - n * p) <= 6 * sd + 1, "the profiles are not distributed according to their weights", **info)
    costs = [float(a.cost) for a in agents]
    lo, hi = cfg["cost_min"], cfg["cost_max"]
    ctx.check(all(lo <= c <= hi for c in costs), "an agent's cost is outside of the given range", low=min(costs), high=max(costs),
              range=[lo, hi], **info)
    if n >= 1000:
        ctx.count("large_populations")
        if hi > lo:
            u = sorted((c - lo) / (hi - lo) for c in costs)
            d = max(abs((i + 0.5) / n - x) for i, x in enumerate(u))
            ctx.check(d <= 2.6 / math.sqrt(n), "costs are not uniformly distributed over their range", distance=d, **info)


def run(job, ctx):
    import sut
    from view import agent_view, view
    cfg = job["cfg"]
    if job["kind"] == "series":
        return series(job, ctx)
    if job["kind"] == "rare":
        found = 0
        for i in range(4):
            m = sut.make(dict(cfg, seed=job["first"] + i, execution_id="r%d" % i))
            found += sum(agent_view(a)["kind"] == ["nonmyopic", "myopic", "abstainer"][job["rare"]] for a in m.schedule.agents)
        ctx.count("rare_profiles")
        ctx.seen(simprop.key(cfg) + "/rare")
        ctx.check(found > 0, "a profile with a small positive weight never occurs", weights=cfg["agent_profile_distr"], draws=4 * cfg["n"])
        return
    m = sut.make(cfg)
    check_population(ctx, cfg, m)
    if job["kind"] == "population":
        return
    absent = [a for a in m.schedule.agents if type(a).__name__ == "Abstainer"]
    if absent:
        ctx.count("abstainer_runs")

    class Idle(sut.Monitor):
        def agent_step_end(self, mm, a):
            if a in absent:
                ctx.count("abstainer_activations")
                ctx.check(a.strategy is None and getattr(a, "new_strategy", None) is None, "an abstainer has a strategy",
                          agent=a.unique_id)

        def collect_end(self, mm):
            V = view(mm)
            ids = {a.unique_id for a in absent}
            for p in V["pools"].values():
                ctx.check(p["owner"] not in ids and not ids & set(p["delegators"]), "an abstainer operates or supports a pool",
                          pool=p, abstainers=sorted(ids))
    sut.run(cfg, [Idle()], model=m)
    if len(absent) == cfg["n"]:
        ctx.count("all_abstain_runs")
        ctx.check(not m.pools and m.has_converged(), "there is activity although everybody abstains")
