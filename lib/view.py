"""The one place that knows where the simulation keeps its state: turns a live model into plain data for the oracles."""

SCHEMES = {"CardanoRSS": 0, "SimplifiedRSS": 1, "FlatPledgeBenefitRSS": 2, "CurvePledgeBenefitRSS": 3, "CIP50RSS": 4}


def pool_view(p):
    return {"id": p.id, "owner": p.owner, "stake": p.stake, "pledge": p.pledge, "cost": p.cost, "margin": p.margin,
            "private": bool(p.is_private), "pp": p.potential_profit, "des": p.desirability,
            "delegators": dict(p.delegators)}


def strategy_view(s):
    if s is None:
        return None
    return {"alloc": dict(s.stake_allocations), "owned": list(s.owned_pools.keys())}


def agent_view(a):
    kind = type(a).__name__
    return {"id": a.unique_id, "stake": a.stake, "cost": a.cost,
            "kind": "abstainer" if a.strategy is None and "bstain" in kind else
            ("myopic" if kind.lower().startswith("myopic") else "nonmyopic"),
            "strategy": strategy_view(a.strategy)}


def params_view(m):
    rs = m.reward_scheme
    return {"k": rs.k, "beta": rs.global_saturation_threshold, "a0": rs.a0, "scheme": SCHEMES[type(rs).__name__],
            "total": m.total_stake, "phi": m.extra_pool_cost_fraction, "rel": m.relative_utility_threshold,
            "abs": m.absolute_utility_threshold, "order": m.agent_activation_order, "steps": m.schedule.steps,
            "phase": m.current_phase}


def view(m):
    v = params_view(m)
    v["pools"] = {pid: pool_view(p) for pid, p in m.pools.items()}
    v["agents"] = {a.unique_id: agent_view(a) for a in m.schedule.agents}
    return v


def staged(a):
    """What an agent has drafted but not yet applied: None, or the strategy with the full data of its pools."""
    s = getattr(a, "new_strategy", None)
    if s is None:
        return None
    return {"alloc": dict(s.stake_allocations), "owned": [pool_view(p) for p in s.owned_pools.values()]}
