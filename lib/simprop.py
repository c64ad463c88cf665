"""Common parts of the properties that are decided by a monitor over simulation runs."""
import scen
from common import digest

RULE = ("Each case is one complete simulation run with a configuration drawn from VERIF_SEED (number of agents, k, a0, costs, "
        "stake source, profiles, thresholds, activation order, reward scheme, inactive stake, phases). ")
SCRAMBLED = RULE + ("In a quarter of the runs, agents without pools are now and then moved to random public pools, so that states "
                    "arise that the agents' own choices would hardly lead to. ")


def n_jobs(tier, quick=400, thorough=8000):
    return quick if tier == "quick" else thorough


def zero_file(r, cfg):
    n = cfg["n"]
    count = r.choice([n, n, n + 5, max(1, n // 2)])
    values = [r.choice([0, 1, 1, 5, round(r.random() * 10, 3), 100]) for _ in range(count)]
    values[r.randrange(count)] = 7
    cfg["_stakes"] = "\n".join(map(str, values)) + "\n"
    cfg["stake_distr_source"] = "file"
    if count > n:
        cfg["_stakes"] = "\n".join(str(v if v else 1) for v in values) + "\n"
    return cfg


def valid(cfg):
    """Keep out what no user would call valid: scheme 4 with a0 = 0 gives every pool a saturation threshold of 0."""
    a0 = cfg["a0"] if isinstance(cfg["a0"], list) else [cfg["a0"]]
    if cfg["reward_scheme"] == 4 and 0 in a0:
        cfg["a0"] = [x or 0.3 for x in a0] if isinstance(cfg["a0"], list) else 0.3
    return cfg


def configs(r, count, **kw):
    out = []
    for i in range(count):
        c = scen.cfg(r, **kw)
        if r.random() < 0.12:
            zero_file(r, c)
        out.append(valid(c))
    return out


def sim_jobs(r, count, **kw):
    return [{"kind": "sim", "cfg": c} for c in configs(r, count, **kw)]


def crowded(r, count):
    """A few rich agents who operate hundreds of pools, and parameters that change only slightly between phases."""
    out = []
    for _ in range(count):
        c = scen.base_cfg(r, "tiny")
        k = r.choice([100, 101, 150, 400, 1000])
        c.update(n=r.choice([2, 2, 3, 4]), k=[k, k + r.choice([-1, 1, 1, 2])], cost_min=r.choice([1e-2, 1e-3, 0]) / k,
                 cost_max=r.choice([1e-2, 2e-2]) / k, iterations_after_convergence=2, max_iterations=12)
        if r.random() < 0.4:
            c["a0"] = [c["a0"], c["a0"] * r.choice([0.999, 1.001, 1.01])]
        out.append({"kind": "sim", "cfg": valid(c)})
    return out


def scramble(r, jobs, share=0.25):
    """Perturb a share of the runs (see monitors.Scramble)."""
    for j in jobs:
        limit = j["cfg"]["max_iterations"]
        if r.random() < share and (isinstance(limit, list) or limit >= 20):
            j["scramble"] = {"seed": r.randrange(10 ** 6), "rounds": r.choice([6, 12]), "rate": r.choice([0.3, 0.6, 1])}
            if r.random() < 0.15:   # rarely, but also late
                j["scramble"].update(rounds=50, rate=0.12)
            if r.random() < 0.3:
                j["scramble"]["spoil"] = True
    return jobs


def key(cfg):
    return digest(cfg)


def summary(cfg, m):
    return {"pools": len(m.pools), "rounds": m.schedule.steps, "equilibrium_steps": m.equilibrium_steps,
            "order": cfg["agent_activation_order"], "scheme": cfg["reward_scheme"], "phases": scen.n_phases(cfg)}


def note(ctx, cfg, m, nontrivial=None):
    """Counters that say what kind of run was observed."""
    ctx.count("runs_" + cfg["agent_activation_order"])
    ctx.count("runs_scheme_%d" % cfg["reward_scheme"])
    if scen.n_phases(cfg) > 1:
        ctx.count("runs_multi_phase")
    if cfg["inactive_stake_fraction"]:
        ctx.count("runs_inactive_stake")
    if cfg["agent_profile_distr"][1]:
        ctx.count("runs_myopic")
    if cfg["agent_profile_distr"][2]:
        ctx.count("runs_abstainers")
    ctx.count("rounds_observed", m.schedule.steps)
    if (len(m.pools) > 0) if nontrivial is None else nontrivial:
        ctx.seen(key(cfg))
    ctx.sample(summary(cfg, m))


def perturbed(job, ctx, mons):
    import monitors
    return ([monitors.Scramble(ctx, job["scramble"])] if "scramble" in job else []) + list(mons)


def run_with(job, ctx, *monitors):
    import sut
    m = sut.run(job["cfg"], perturbed(job, ctx, monitors))
    note(ctx, job["cfg"], m)
    return m
