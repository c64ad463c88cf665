import simprop

RULE = simprop.SCRAMBLED + ("Non-trivial: a distinct kind of decision (what the agent was, what they chose, profile, reward scheme, "
                       "activation order). In more than half of the runs, the thresholds are set before half of the turns such that the "
                          "best option only just exceeds them or only just does not.")
REQUIRE = {"decisions": 20000, "critical_thresholds": 2000, "critical_delegations": 200, "joint_moves_applied": 500,
           "joint_moves_cut": 10, "joint_moves_cut_entirely": 3}


def jobs(r, tier):
    out = simprop.scramble(r, simprop.sim_jobs(r, simprop.n_jobs(tier)))
    for j in out:
        if r.random() < 0.6:
            j["critical"] = r.randrange(10 ** 6)
    return out


def run(job, ctx):
    import monitors
    import sut
    m = sut.run(job["cfg"], simprop.perturbed(job, ctx, [monitors.Decisions(ctx, "rationality", critical=job.get("critical")), monitors.Applied(ctx)]))
    simprop.note(ctx, job["cfg"], m, nontrivial=False)
