import simprop

RULE = simprop.SCRAMBLED + "Non-trivial: a distinct configuration whose run ended with at least one pool."
REQUIRE = {"states_with_pools": 2000, "delegations_checked": 5000}


def jobs(r, tier):
    out = simprop.sim_jobs(r, simprop.n_jobs(tier))
    for j in out[::3]:
        j["cfg"]["agent_activation_order"] = r.choice(["simultaneous", "semisimultaneous"])
    return simprop.crowded(r, simprop.n_jobs(tier, 8, 60)) + simprop.scramble(r, out)


def run(job, ctx):
    import monitors
    simprop.run_with(job, ctx, monitors.Ledger(ctx))
