import simprop

RULE = simprop.SCRAMBLED + ("Non-trivial: a distinct kind of decision (what the agent was, what they chose, profile, reward scheme, "
                       "activation order).")
REQUIRE = {"decisions": 20000, "runs_crowded": 10}


def jobs(r, tier):
    crowded = simprop.crowded(r, simprop.n_jobs(tier, 24, 200))
    return crowded + simprop.scramble(r, simprop.sim_jobs(r, simprop.n_jobs(tier)))


def run(job, ctx):
    import monitors
    import sut
    m = sut.run(job["cfg"], simprop.perturbed(job, ctx, [monitors.Decisions(ctx, "operation")]))
    if job["cfg"]["n"] <= 4 and m.reward_scheme.k >= 90:
        ctx.count("runs_crowded")
    simprop.note(ctx, job["cfg"], m, nontrivial=False)
