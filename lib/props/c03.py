import simprop

RULE = simprop.SCRAMBLED + "Non-trivial: a distinct configuration whose run ended with at least one pool."
REQUIRE = {"agents_with_stake_in_use": 10000}


def jobs(r, tier):
    return simprop.crowded(r, simprop.n_jobs(tier, 8, 60)) + simprop.scramble(r, simprop.sim_jobs(r, simprop.n_jobs(tier), profiles=0.7, inactive=0.3))


def run(job, ctx):
    import monitors
    simprop.run_with(job, ctx, monitors.Budget(ctx))
