import simprop

RULE = simprop.SCRAMBLED + ("Non-trivial: a distinct kind of decision (what the agent was, what they chose, profile, reward scheme, "
                       "activation order).")
REQUIRE = {"decisions": 20000}


def jobs(r, tier):
    return simprop.scramble(r, simprop.sim_jobs(r, simprop.n_jobs(tier)))


def run(job, ctx):
    import monitors
    import sut
    m = sut.run(job["cfg"], simprop.perturbed(job, ctx, [monitors.Decisions(ctx, "delegation")]))
    simprop.note(ctx, job["cfg"], m, nontrivial=False)
