import scen
import simprop

RULE = simprop.RULE + ("At least two phases in most runs, lists of different lengths, known and unknown inactive stake. "
                       "Non-trivial: a distinct combination of changed parameters, phases reached, inactive stake.")
REQUIRE = {"parameter_checks": 5000, "phase_changes": 150, "quiet_rounds": 500}
MULTI = ["k", "a0", "relative_utility_threshold", "absolute_utility_threshold", "extra_pool_cost_fraction", "max_iterations"]


def jobs(r, tier):
    out = []
    for c in simprop.configs(r, simprop.n_jobs(tier, 700, 10000), size=None, phases=0, inactive=0.45):
        if r.random() < 0.9:
            scen.with_phases(r, c, r.sample(MULTI, r.choice([1, 2, 3, 4])))
        c["n"] = min(c["n"], 40)
        c["iterations_after_convergence"] = r.choice([1, 1, 2, 3, 5])
        if r.random() < 0.3:
            c["absolute_utility_threshold"] = 1e-4
        if isinstance(c["max_iterations"], int):
            c["max_iterations"] = 120
        if r.random() < 0.1:
            c["agent_activation_order"] = r.choice(["Random", "Sequential", "Simultaneous", "SemiSimultaneous"]).lower()
        out.append({"kind": "sim", "cfg": simprop.valid(c)})
    return out


def run(job, ctx):
    import monitors
    import sut
    cfg = job["cfg"]
    mon = monitors.Phases(ctx, cfg, "params")
    m = sut.run(cfg, [mon])
    simprop.note(ctx, cfg, m, nontrivial=False)
    if mon.phase:
        ctx.seen("%s/%d/%s" % (sorted(k for k in MULTI if isinstance(cfg[k], list)), mon.phase,
                               cfg["inactive_stake_fraction_known"] and cfg["inactive_stake_fraction"]))
