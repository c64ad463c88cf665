import scen
import simprop

RULE = simprop.SCRAMBLED + "Non-trivial: a distinct configuration that reached an equilibrium with at least one pool."
REQUIRE = {"equilibria": 100, "agents_at_equilibrium": 1500, "operators_at_equilibrium": 200}


def jobs(r, tier):
    out = simprop.sim_jobs(r, simprop.n_jobs(tier, 700, 10000), phases=0.35)
    for j in out:
        c = j["cfg"]
        if not isinstance(c["max_iterations"], list):
            c["max_iterations"] = 150
        c["n"] = min(c["n"], 40)
        c["iterations_after_convergence"] = r.choice([1, 1, 2, 3])
        if r.random() < 0.6 and not isinstance(c["absolute_utility_threshold"], list):
            c["absolute_utility_threshold"] = r.choice([1e-9, 1e-6, 1e-5, 1e-4])
    return simprop.scramble(r, out)


def run(job, ctx):
    import monitors
    import sut
    m = sut.run(job["cfg"], simprop.perturbed(job, ctx, [monitors.Equilibrium(ctx)]))
    simprop.note(ctx, job["cfg"], m, nontrivial=bool(m.equilibrium_steps) and len(m.pools) > 0)
