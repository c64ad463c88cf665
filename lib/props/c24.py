import simprop

RULE = simprop.SCRAMBLED + ("Some runs are stepped by hand first and then run to the end. Non-trivial: a distinct combination of order and "
                       "numbers of pools closed, opened, kept and of pools whose delegations were released in one move.")
REQUIRE = {"moves": 5000, "pools_closed": 200, "pools_opened": 1000, "pools_kept": 500, "delegations_released": 200,
           "pending_moves_checked": 1000}


def jobs(r, tier):
    out = simprop.sim_jobs(r, simprop.n_jobs(tier, 500))
    for j in out:
        if r.random() < 0.25:
            j["steps_first"] = r.choice([1, 2, 3, 5])
    return simprop.crowded(r, simprop.n_jobs(tier, 8, 60)) + simprop.scramble(r, out)


def run(job, ctx):
    import monitors
    import sut
    mon = monitors.Frame(ctx)
    m = sut.make(job["cfg"])
    with sut.watched(m, simprop.perturbed(job, ctx, [mon])), sut.quiet():
        for _ in range(job.get("steps_first", 0)):
            if m.running:
                m.step()
        if m.running:
            m.run_model()
    simprop.note(ctx, job["cfg"], m, nontrivial=False)
