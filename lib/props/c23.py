import scen
import simprop

RULE = simprop.SCRAMBLED + "All metrics are collected in half of the runs. Non-trivial: a distinct configuration with pools at the end."
REQUIRE = {"collections": 500, "decisions_to_stay": 5000, "decisions_pending": 500, "decisions_with_pools": 5000, "exports": 20, "collections_with_many_pools": 50}


def jobs(r, tier):
    out = simprop.sim_jobs(r, simprop.n_jobs(tier))
    for j in out:
        c = j["cfg"]
        if r.random() < 0.5 and c["reward_scheme"] != 4:
            c["metrics"] = list(scen.ALL_METRICS)
        elif r.random() < 0.5:
            c["metrics"] = r.sample([x for x in scen.ALL_METRICS if x != 8], 8)
        if r.random() < 0.3:
            c["max_iterations"] = r.choice([3, 6, 10])
    return simprop.scramble(r, out)


def run(job, ctx):
    import monitors
    simprop.run_with(job, ctx, monitors.Pure(ctx))
