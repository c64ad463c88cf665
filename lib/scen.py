"""Generators of simulation configurations: realistic, hostile and boundary ones. Everything is drawn from the generator
that is passed in, so a scenario is reproduced by its JSON alone."""
from common import ORDERS

ALL_METRICS = [i for i in range(1, 31) if i != 11]  # 11 (min-aggregate pledge) calls an external solver: see C15


def pick(r, weighted):
    total = sum(w for _, w in weighted)
    x = r.random() * total
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


def base_cfg(r, size="small"):
    if size == "tiny":
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
        k = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
    elif size == "small":
        n = r.choice([r.randrange(10, 41), r.choice([10, 15, 20, 25, 30, 35, 40])])
        k = r.choice([1, 2, 3, 4, 5, 6, 8, 10])
    elif size == "medium":
        n = r.choice([50, 60, 75, r.randrange(45, 80)])
        k = r.choice([3, 5, 8, 10, 15])
    else:
        n = r.choice([150, 200, 300, r.randrange(150, 301)])
        k = r.choice([10, 20, 30, 40])
    cost_scale = pick(r, [("normal", 5), ("cheap", 2), ("dear", 2), ("zero", .5), ("equal", 1)])
    # a pool's rewards are about 1/k, so costs are expressed relative to that
    unit = 1.0 / k
    if cost_scale == "normal":
        lo, hi = unit * 1e-3, unit * r.choice([1e-2, 5e-2])
    elif cost_scale == "cheap":
        lo, hi = 1e-5, 1e-4
    elif cost_scale == "dear":
        lo, hi = unit * 0.05, unit * r.choice([0.5, 1.5])
    elif cost_scale == "zero":
        lo, hi = 0.0, r.choice([0.0, unit * 1e-2])
    else:
        lo = hi = unit * r.choice([1e-3, 1e-2, 0.1])
    return {
        "n": n, "k": k,
        "a0": r.choice([0, 0.1, 0.3, 0.3, 0.5, 1, 3, r.uniform(0, 2), 10 ** r.uniform(-5, 1)]),
        "stake_distr_source": pick(r, [("Pareto", 8), ("flat", 2)]),
        "agent_profile_distr": [1, 0, 0],
        "inactive_stake_fraction": 0,
        "inactive_stake_fraction_known": False,
        "relative_utility_threshold": r.choice([0, 0, 0, 0.01, 0.1]),
        "absolute_utility_threshold": r.choice([0, 1e-9, 1e-9, 1e-6]),
        "seed": r.randrange(1, 10 ** 6),
        "pareto_param": r.choice([0.8, 1.2, 2.0, 2.0, 3.5]),
        "max_iterations": r.choice([25, 40, 60]),
        "cost_min": lo, "cost_max": hi,
        "extra_pool_cost_fraction": r.choice([0, 0.1, 0.4, 0.4, 0.8, 1.0, 1.5, r.uniform(0, 1.2)]),
        "agent_activation_order": r.choice(ORDERS),
        "iterations_after_convergence": r.choice([1, 2, 3, 5, 10]),
        "reward_scheme": pick(r, [(0, 4), (1, 2), (2, 2), (3, 1.5), (4, 1.5)]),
        "execution_id": "x",
        "generate_graphs": False,
        "metrics": [1, 2, 9],
    }


def skewed(r, cfg):
    """A few agents who own most of the stake, and many desired pools, so that single agents can saturate many of them."""
    n, k = cfg["n"], cfg["k"]
    cfg["stake_distr_source"] = "Pareto"
    cfg["pareto_param"] = r.choice([0.15, 0.3, 0.5, 0.7, 0.8, 1.0])
    cfg["k"] = max(1, min(60, r.choice([n // 2, n, 2 * n, 3 * n])))
    f = k / cfg["k"]
    cfg["cost_min"] *= f
    cfg["cost_max"] *= f
    return cfg


def with_profiles(r, cfg):
    cfg["agent_profile_distr"] = r.choice(
        [[1, 0, 0], [1, 1, 0], [0, 1, 0], [4, 2, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1], [0.7, 0.2, 0.1]])
    return cfg


def with_inactive(r, cfg):
    cfg["inactive_stake_fraction"] = r.choice([0.05, 0.1, 0.25, 0.5, 0.8, 0.9])
    cfg["inactive_stake_fraction_known"] = r.random() < 0.5
    return cfg


def with_phases(r, cfg, keys=None):
    phases = r.choice([2, 2, 3, 4])
    options = keys or r.sample(["k", "a0", "relative_utility_threshold", "absolute_utility_threshold",
                                "extra_pool_cost_fraction"], r.choice([1, 1, 2, 3]))
    k = cfg["k"]
    for key in options:
        m = r.choice([phases, phases, max(2, phases - 1)])
        if key == "k":
            if r.random() < 0.2 and not isinstance(cfg["max_iterations"], list) and k <= 15:   # the old pools become unprofitable
                cfg["cost_min"], cfg["cost_max"] = 0.02 / k, r.choice([0.1, 0.3, 0.6]) / k
                cfg["k"] = [k] + [max(1, r.choice([k, 4, 6, 10]) * r.choice([k, 1])) for _ in range(m - 1)]
                continue
            cfg["k"] = [k] + [max(1, r.choice([k // 2, k - 1, k + 1, 2 * k, 3 * k])) for _ in range(m - 1)]
        elif key == "a0":
            cfg["a0"] = [r.choice([0, 0.1, 0.3, 1, 3]) for _ in range(m)]
        elif key == "relative_utility_threshold":
            cfg[key] = [r.choice([0, 0.01, 0.1, 0.5]) for _ in range(m)]
        elif key == "absolute_utility_threshold":
            cfg[key] = [r.choice([0, 1e-9, 1e-6, 1e-3]) for _ in range(m)]
        elif key == "extra_pool_cost_fraction":
            cfg[key] = [r.choice([0, 0.1, 0.4, 1.0, 1.5]) for _ in range(m)]
        elif key == "max_iterations":
            cfg[key] = [r.choice([30, 60, 100]) for _ in range(m)]
    cfg["max_iterations"] = r.choice([50, 80, 120]) if not isinstance(cfg["max_iterations"], list) else cfg["max_iterations"]
    return cfg


def cfg(r, size=None, profiles=0.5, inactive=0.2, phases=0.25):
    size = size or pick(r, [("tiny", 2), ("small", 5), ("medium", 1.2)])
    c = base_cfg(r, size)
    if r.random() < 0.15:
        skewed(r, c)
    if r.random() < profiles:
        with_profiles(r, c)
    if r.random() < inactive:
        with_inactive(r, c)
    if r.random() < phases:
        with_phases(r, c)
    return c


def n_phases(c):
    return max([len(v) for k, v in c.items() if isinstance(v, list) and k not in ("metrics", "agent_profile_distr")],
               default=1)
