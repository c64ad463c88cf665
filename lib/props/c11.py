import simprop
from common import ORDERS

RULE = simprop.RULE + "Non-trivial: a distinct configuration (its rounds were all checked)."
REQUIRE = {"shuffled_rounds": 100, "rounds_random": 200, "rounds_sequential": 200, "rounds_simultaneous": 200, "rounds_semisimultaneous": 200,
           "joint_moves_applied": 1000,
           "joint_moves_cut": 5}


def jobs(r, tier):
    out = simprop.sim_jobs(r, simprop.n_jobs(tier))
    crowd = simprop.sim_jobs(r, 12 if tier == "quick" else 60, phases=0)
    for i, j in enumerate(crowd):  # many agents, few rounds
        j["cfg"].update(n=r.choice([250, 400, 700]), k=r.choice([3, 10, 30]), stake_distr_source="Pareto", max_iterations=2,
                        agent_activation_order=ORDERS[-1 - i % len(ORDERS)])
        j["cfg"].pop("_stakes", None)
    return crowd + out


def run(job, ctx):
    import monitors
    import sut
    m = sut.run(job["cfg"], [monitors.Activation(ctx), monitors.Applied(ctx)])
    simprop.note(ctx, job["cfg"], m, nontrivial=True)
