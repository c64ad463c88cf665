import scen
import simprop

RULE = simprop.RULE + ("Round limits and numbers of idle rounds from 1 up, immediate equilibria, oscillating systems, several phases, agents that are made to move again after idle rounds. "
                       "Non-trivial: a distinct combination of how the run ended, number of equilibria, required idle rounds, order.")
REQUIRE = {"equilibria": 200, "ended_by_limit": 100, "ended_at_equilibrium": 100, "phase_changes": 60, "rounds_idle": 500, "moves_after_rest": 60}


def jobs(r, tier):
    out = []
    for c in simprop.configs(r, simprop.n_jobs(tier, 900, 12000), phases=0.45):
        x = r.random()
        if x < 0.35:
            c["max_iterations"] = r.choice([1, 2, 3, 5, 8, 12])
            c["iterations_after_convergence"] = r.choice([1, 2, 3, c["max_iterations"], c["max_iterations"] + 1])
        elif x < 0.5:   # nobody ever moves, or hardly
            c["agent_profile_distr"] = [0, 0, 1]
        elif x < 0.6:
            c["absolute_utility_threshold"] = r.choice([1e-2, 1, 10])
        if r.random() < 0.6:
            c["n"] = min(c["n"], 25)
        if r.random() < 0.1 and scen.n_phases(c) > 1:
            c["max_iterations"] = [r.choice([10, 20, 60]) for _ in range(2)]
        out.append({"kind": "sim", "cfg": c, "manual": r.random() < 0.15})
    # left alone, nobody moves any more after a round in which nobody moved: here somebody sometimes does
    for c in simprop.configs(r, simprop.n_jobs(tier, 220, 3000), phases=0.3, size="small"):
        c["max_iterations"] = r.choice([20, 40, 60])
        c["iterations_after_convergence"] = r.choice([2, 3, 4, 5, 6, 8, 10])
        c["agent_profile_distr"] = r.choice([[1, 0, 0], [1, 1, 0], [1, 0, 1]])
        out.append({"kind": "sim", "cfg": c, "manual": False,
                    "scramble": {"seed": r.randrange(10 ** 6), "rounds": r.choice([15, 30, 60]), "rate": r.choice([0.1, 0.2, 0.3])}})
    return out


def run(job, ctx):
    import monitors
    import sut
    cfg = job["cfg"]
    mon = monitors.Phases(ctx, cfg, "end")
    if job["manual"]:
        m = sut.make(cfg)
        sut.manual_run(m, [mon])
    else:
        # (the moves that do not come from the agents themselves count, too, so they come after the monitor looked)
        m = sut.run(cfg, [mon] + ([monitors.Scramble(ctx, job["scramble"])] if "scramble" in job else []))
        if "scramble" in job:
            ctx.count("moves_after_rest", mon.interrupted)
    simprop.note(ctx, cfg, m, nontrivial=False)
    ctx.seen("%s/%d/%d/%s" % (mon.ended, len(mon.expected_eq), mon.iac, cfg["agent_activation_order"]))
