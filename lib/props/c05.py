import simprop

RULE = simprop.SCRAMBLED + "Non-trivial: a distinct configuration whose run ended with at least one pool."
REQUIRE = {"pools_checked": 20000}


def jobs(r, tier):
    return simprop.crowded(r, simprop.n_jobs(tier, 8, 60)) + simprop.scramble(r, simprop.sim_jobs(r, simprop.n_jobs(tier), phases=0.5))


def run(job, ctx):
    import monitors
    simprop.run_with(job, ctx, monitors.Derived(ctx))
