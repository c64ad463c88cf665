import scen
import simprop
from common import rng_for

RULE = ("Each case is a batch of 400 evaluations of a reward scheme object at random and boundary points (k, a0, pledge, stake), "
        "with parameter changes in between, or a simulation run whose pools' rewards are audited every round. Non-trivial: a "
        "distinct (scheme, a0 regime, pledge regime, stake regime) combination.")
REQUIRE = {"evaluations": 20000, "audited_rounds": 100}


def jobs(r, tier):
    out = [{"kind": "laws", "seed": r.randrange(10 ** 9)} for _ in range(300 if tier == "quick" else 6000)]
    sims = [{"kind": "sim", "cfg": c} for c in simprop.configs(r, 60 if tier == "quick" else 1000, size="small", phases=0.4)]
    for s in sims:
        out.insert(r.randrange(len(out)), s)
    return out


def point(r, beta):
    """A stake value relative to the saturation threshold: zero, tiny, below, at, just around, above."""
    return r.choice([0.0, 1e-17, beta * 1e-6, beta * r.random(), beta * r.random(), beta * (1 - 1e-9), beta, beta * (1 + 1e-9),
                     beta * (1 + r.random()), 1.0])


def regime(x, b):
    return "0" if x == 0 else ("<" if x < b else ("=" if x == b else ">"))


def run(job, ctx):
    import ref
    import sut
    if job["kind"] == "sim":
        class Audit(sut.Monitor):
            def collect_end(self, m):
                from view import view
                V = view(m)
                if not V["pools"]:
                    return
                ctx.count("audited_rounds")
                got = {i: m.reward_scheme.calculate_pool_reward(pool_pledge=p["pledge"], pool_stake=p["stake"])
                       for i, p in V["pools"].items()}
                for i, p in V["pools"].items():
                    ctx.count("evaluations")
                    want = ref.reward(V, p["pledge"], p["stake"])
                    ctx.check(ref.close_(got[i], want), "a live pool's reward is not the one of the scheme's formula", pool=p,
                              got=got[i], expected=want, scheme=V["scheme"])
                ctx.check(sum(got.values()) <= 1 + 1e-9, "the pools' rewards exceed the total rewards of an epoch",
                          total=sum(got.values()), scheme=V["scheme"])
        m = sut.run(job["cfg"], [Audit()])
        ctx.seen(simprop.key(job["cfg"]))
        return
    r = rng_for("c06", job["seed"])
    for scheme, cls in sorted(sut.rss.RSS_MAPPING.items()):
        a0 = r.choice([0, 0.0, 0.05, 0.3, 1, 2.5, 50])
        k = r.choice([1, 2, 3, 7, 10, 100, 1000])
        obj = cls(-1, -1)
        obj.k, obj.a0 = k, a0
        kk = k
        for i in range(80):
            if i % 20 == 10:
                if r.random() < 0.5:
                    kk = r.choice([1, 2, 5, 33, 250, 2.5, 142.857])
                    obj.k = kk
                else:
                    a0 = r.choice([0, 0.1, 0.3, 3])
                    obj.a0 = a0
            V = {"a0": a0, "beta": 1 / kk, "scheme": scheme}
            b = 1 / kk
            info = {"scheme": scheme, "k": kk, "a0": a0}
            ctx.check(obj.k == int(kk) and ref.close_(obj.global_saturation_threshold, b), "the saturation threshold is not 1/k",
                      got=[obj.k, obj.global_saturation_threshold], **info)
            p, s = point(r, b), point(r, b)
            if r.random() < 0.8:
                p, s = min(p, s), max(p, s)
            t = obj.get_pool_saturation_threshold(p)
            ctx.check(ref.close_(t, ref.sat(V, p)), "the saturation threshold of a pool is wrong", pledge=p, got=t, **info)
            f = lambda pp, ss: obj.calculate_pool_reward(pool_pledge=pp, pool_stake=ss)
            got = f(p, s)
            ctx.count("evaluations")
            ctx.seen("%s/%s/%s/%s" % (scheme, "0" if a0 == 0 else ("<1" if a0 < 1 else ">=1"), regime(p, b), regime(s, b)))
            info.update(pledge=p, stake=s, got=got)
            ctx.check(ref.close_(got, ref.reward(V, p, s)), "the reward is not the one of the scheme's formula",
                      expected=ref.reward(V, p, s), **info)
            if p <= s:
                ctx.check(got <= min(s, b) + 1e-12, "a pool earns more than its share of the stake up to saturation", **info)
                if scheme != 3:
                    ctx.check(got >= -1e-15, "a reward is negative", **info)
            over = max(s, t) * (1 + r.random())
            if s >= t:
                ctx.check(ref.close_(f(p, over), got), "stake above saturation changes the reward", more=over, **info)
            if scheme != 3:
                less = s * r.random()
                if p <= less or scheme == 4:
                    ctx.check(f(p, less) <= got + 1e-12, "more stake gives a lower reward", less=less, other=f(p, less), **info)
            if scheme in (1, 2, 4):
                lp = p * r.random()
                ctx.check(f(lp, s) <= got + 1e-12, "more pledge gives a lower reward", less_pledge=lp, other=f(lp, s), **info)
            if a0 == 0 and scheme != 4:
                ctx.check(ref.close_(got, min(s, b)), "the pledge has an influence although a0 is 0", **info)
            if scheme in (0, 1, 2):
                ctx.check(ref.close_(f(b, b), b), "a pool that is saturated by its pledge does not get the full 1/k of the rewards", **info)
            # any division of the stake among pools stays within the budget
            if i % 8 == 0:
                parts = [r.random() ** 3 for _ in range(r.choice([2, 5, 30]))]
                tot = sum(parts)
                pools = [(x / tot, x / tot * r.choice([0, r.random(), 1])) for x in parts]
                ctx.check(sum(f(pl, st) for st, pl in pools) <= 1 + 1e-9, "the rewards of all pools exceed the total rewards",
                          pools=pools[:6], **info)
        try:
            obj.k = 0
            ctx.violation("a reward scheme accepts k = 0", scheme=scheme)
        except ValueError:
            pass
