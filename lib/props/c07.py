import scen
import simprop
from common import rng_for

RULE = ("Each case is a batch of 300 random pools (scheme, margin, cost, pledge, delegations), each evaluated for all of its members, "
        "repeatedly and after parameter changes, or a simulation run whose pools are audited every round. Non-trivial: a distinct "
        "combination of scheme, profit sign, margin regime and number of delegators, or a distinct run.")
REQUIRE = {"evaluations": 10000, "live_pools_audited": 1000, "loss_making": 500}


def jobs(r, tier):
    out = [{"kind": "laws", "seed": r.randrange(10 ** 9)} for _ in range(250 if tier == "quick" else 6000)]
    for c in simprop.configs(r, 80 if tier == "quick" else 1500, size="small", phases=0.4):
        out.insert(r.randrange(len(out)), {"kind": "sim", "cfg": c})
    return out


def audit(ctx, hlp, scheme, stake, pledge, margin, cost, delegations, info):
    import ref
    rw = scheme.calculate_pool_reward(pool_pledge=pledge, pool_stake=stake)
    op = hlp.calculate_operator_utility_from_pool(pool_stake=stake, pledge=pledge, margin=margin, cost=cost, reward_scheme=scheme)
    ds = [hlp.calculate_delegator_utility_from_pool(stake_allocation=x, pool_stake=stake, pledge=pledge, margin=margin, cost=cost,
                                                    reward_scheme=scheme) for x in delegations]
    profit = rw - cost
    ctx.count("evaluations")
    info = dict(info, stake=stake, pledge=pledge, margin=margin, cost=cost, delegations=delegations[:6], reward=rw, operator=op,
                delegators=ds[:6])
    ctx.check(all(d >= 0 for d in ds), "a delegator loses money", **info)
    if profit > 0:
        ctx.check(ref.close_(op + sum(ds), profit, 1e-9, 1e-14), "the members' shares do not add up to the pool's profit", **info)
        ctx.check(op >= margin * profit - 1e-15, "the operator gets less than their margin", **info)
        for x, d in zip(delegations, ds):
            ctx.check(ref.close_(d, (1 - margin) * profit * x / stake, 1e-9, 1e-15),
                      "a delegator's share is not in proportion to their stake", delegation=x, share=d, **info)
    else:
        ctx.count("loss_making")
        ctx.check(ref.close_(op, profit, 1e-12, 1e-18) and all(d == 0 for d in ds),
                  "a loss is not borne by the operator alone", **info)
    return op, ds


def run(job, ctx):
    import sut
    hlp = sut.hlp
    if job["kind"] == "sim":
        class Audit(sut.Monitor):
            def collect_end(self, m):
                for p in list(m.pools.values()):
                    if p.stake > 0:
                        ctx.count("live_pools_audited")
                        audit(ctx, hlp, m.reward_scheme, p.stake, p.pledge, p.margin, p.cost, list(p.delegators.values()),
                              {"pool": p.id, "round": m.schedule.steps})
        sut.run(job["cfg"], [Audit()])
        ctx.seen(simprop.key(job["cfg"]))
        return
    r = rng_for("c07", job["seed"])
    seen = []
    for i in range(300):
        scheme = r.randrange(5)
        k, a0 = r.choice([1, 3, 10, 100]), r.choice([0, 0.1, 0.3, 1, 3])
        obj = sut.rss.RSS_MAPPING[scheme](k, a0)
        b = 1 / k
        pledge = b * r.choice([0, r.random(), r.random() * 0.1, 1, 10 ** -r.uniform(4, 10)])
        ds = [b * r.random() * r.choice([1, 0.1, 1e-3]) for _ in range(r.choice([0, 1, 2, 5, 20]))]
        if r.random() < 0.2:
            ds.append(b * r.uniform(0.9, 1))
        stake = pledge + sum(ds)
        if stake <= 0:
            continue
        margin = r.choice([0, 1, r.random(), r.random(), 1e-6])
        rw = obj.calculate_pool_reward(pool_pledge=pledge, pool_stake=stake)
        cost = r.choice([0, max(rw, 0) * r.random(), max(rw, 0), max(rw, 0) * (1 + r.random()), 1e-5, b])
        ctx.seen("%d/%s/%s/%d" % (scheme, "+" if rw > cost else ("0" if rw == cost else "-"),
                                  "0" if margin == 0 else ("1" if margin == 1 else "m"), len(ds)))
        first = audit(ctx, hlp, obj, stake, pledge, margin, cost, ds, {"scheme": scheme, "k": k, "a0": a0})
        seen.append((obj, stake, pledge, margin, cost, ds, first))
        if i % 10 == 9:
            # the same question again, after others were asked: the answer may not change
            o, st, pl, mg, cs, dd, was = r.choice(seen)
            ctx.check(audit(ctx, hlp, o, st, pl, mg, cs, dd, {"again": True}) == was, "the same pool is shared differently when "
                      "asked again", was=was)
            # ... unless the parameters change, in which case it must follow them
            o.a0 = r.choice([0, 0.3, 2])
            o.k = r.choice([2, 5, 50])
            audit(ctx, hlp, o, st, pl, mg, cs, dd, {"after": "parameter change"})
            seen = [x for x in seen if x[0] is not o]
    ctx.sample({"pools": 300})
