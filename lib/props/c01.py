import math

import scen
import simprop

RULE = simprop.RULE + ("Only the initial state is inspected. Stake sources: Pareto, flat, disparity, files with as many, more, fewer "
                       "values than agents, one or many per line, zeros, and the default file. Non-trivial: a distinct configuration.")
REQUIRE = {"initial_states": 300, "file_sources": 50, "inactive_states": 100, "pareto_tail_checks": 10}


def jobs(r, tier):
    out = []
    for i in range(simprop.n_jobs(tier, 700, 8000)):
        c = scen.base_cfg(r, scen.pick(r, [("tiny", 3), ("small", 4), ("medium", 2), ("large", 1)]))
        c["k"] = min(c["k"], 10)
        scen.with_profiles(r, c)
        if r.random() < 0.6:
            scen.with_inactive(r, c)
            if r.random() < 0.3:
                c["inactive_stake_fraction"] = round(r.random() * 0.99, 6)
        src = r.choice(["pareto", "Pareto", "flat", "Flat", "file", "file", "disparity"])
        c["stake_distr_source"] = src
        if src == "disparity":
            c["n"] = max(4, c["n"])
        extra = {}
        if src == "file":
            n = c["n"]
            m = r.choice([n, n, n, n + r.randrange(1, 50), max(1, n - r.randrange(1, 10))])
            scale = r.choice([1, 1e6, 1e-6, 4.5e10])
            vals = [round(r.choice([r.random(), r.paretovariate(1.2), r.randrange(1, 9)]) * scale, 9) or 1.0 for _ in range(m)]
            if r.random() < 0.3 and m == n:
                for _ in range(r.randrange(1, n + 1)):
                    vals[r.randrange(m)] = 0.0
                if r.random() < 0.5:
                    vals[-1] = 0.0
                vals[0] = 5 * scale
            sep = r.choice(["\n", ",", "mixed"])
            if sep == "mixed":
                text = "".join(repr(v) + ("," if r.random() < 0.7 else "\n") for v in vals).rstrip(",") + "\n"
            else:
                text = sep.join(map(repr, vals)) + r.choice(["", "\n"])
            extra = {"values": vals, "text": text, "default": r.random() < 0.25}
        out.append({"kind": "init", "cfg": c, "file": extra})
    for i in range(30 if tier == "quick" else 200):
        c = scen.base_cfg(r, "small")
        c.update(n=2000, k=10, stake_distr_source="pareto", pareto_param=r.choice([0.3, 0.5, 0.7, 0.9, 1.16, 1.5, 2.0, 3.0, 5.0]))
        out.insert(r.randrange(len(out)), {"kind": "tail", "cfg": c, "file": {}})
    return out


def run(job, ctx):
    import sut
    cfg, f = job["cfg"], job["file"]
    n, frac, src = cfg["n"], cfg["inactive_stake_fraction"], cfg["stake_distr_source"].lower()
    if f:
        name = "synthetic-stake-distribution-%d-agents.csv" % (10000 if f["default"] else n)
        with open(name, "w") as h:
            h.write(f["text"])
    m = sut.make(cfg)
    agents = sorted(m.schedule.agents, key=lambda a: a.unique_id)
    stakes = [float(a.stake) for a in agents]
    total = math.fsum(stakes)
    info = {"source": src, "n": n, "inactive": frac, "stakes": stakes[:6], "sum": total}
    ctx.count("initial_states")
    ctx.count("source_" + src)
    ctx.seen(simprop.key([cfg, f.get("text")]))
    ctx.sample(info)
    ctx.check([a.unique_id for a in agents] == list(range(n)), "there are not exactly n agents", **info)
    ctx.check(all(x >= 0 for x in stakes), "an agent has negative stake", low=min(stakes), **info)
    if frac:
        ctx.count("inactive_states")
    ctx.check(abs(total - (1 - frac)) <= 1e-9, "the agents' stake does not add up to the active part of the total stake",
              expected=1 - frac, **info)
    ctx.check(abs(m.total_stake - 1) <= 1e-9, "the total stake of the system is not 1", got=m.total_stake, **info)
    scale = (1 - frac)

    def proportional(raw, what):
        t = math.fsum(raw)
        want = [x / t * scale for x in raw]
        bad = [i for i, (x, y) in enumerate(zip(stakes, want)) if abs(x - y) > 1e-9]
        ctx.check(not bad, what, at=bad[:5], expected=want[:6], **info)

    if src == "flat":
        proportional([1.0] * n, "a flat distribution does not give every agent the same stake")
    elif src == "disparity":
        proportional([0.1] * 3 + [0.7 / (n - 3)] * (n - 3), "a disparity distribution is not 3 agents with 30% of the stake")
    elif src == "file":
        ctx.count("file_sources")
        vals = f["values"]
        if len(vals) == n:
            proportional(vals, "the agents' stakes are not in proportion to the values of the file")
        else:
            # a sample of the values: all ratios to the largest one must occur among the values
            unit = stakes[0]
            ok, left = False, None
            for v in set(vals):
                # v is the value that agent 0 may have got
                if v <= 0 or unit <= 0:
                    continue
                rest = sorted(vals)
                good = True
                for s in stakes:
                    x = s / unit * v
                    hit = next((y for y in rest if abs(y - x) <= 1e-6 * max(abs(y), 1e-12)), None)
                    if hit is None:
                        good = False
                        break
                    if n <= len(vals):
                        rest.remove(hit)  # without replacement
                if good:
                    ok = True
                    break
            ctx.check(ok, "the agents' stakes are not a sample of the values of the file", values=vals[:8], **info)
            ctx.count("file_samples")
    elif src == "pareto":
        ctx.check(min(stakes) > 0, "an agent has no stake under a Pareto distribution", **info)
        if n > 3:
            ctx.check(len(set(stakes)) > n // 2, "a Pareto distribution gives most agents the same stake", **info)
        m2 = sut.make(dict(cfg, seed=cfg["seed"] + 1, execution_id="y"))
        other = [float(a.stake) for a in sorted(m2.schedule.agents, key=lambda a: a.unique_id)]
        if n > 2:
            ctx.check(any(abs(x - y) > 1e-9 for x, y in zip(stakes, other)), "the stake does not depend on the seed", **info)
        m3 = sut.make(dict(cfg, execution_id="z"))
        same = [float(a.stake) for a in sorted(m3.schedule.agents, key=lambda a: a.unique_id)]
        ctx.check(same == stakes, "the same seed gives different stakes", other=same[:6], **info)
    if job["kind"] == "tail":
        # log(x / x_min) of a Pareto sample is exponential with mean 1/shape
        ctx.count("pareto_tail_checks")
        a = cfg["pareto_param"]
        lo = min(stakes)
        logs = sorted(math.log(x / lo) for x in stakes)
        mean = math.fsum(logs) / (n - 1)
        ctx.check(abs(mean * a - 1) <= 6 / math.sqrt(n), "the stake distribution does not have the requested Pareto shape",
                  mean_log=mean, shape=a, **info)
        # Kolmogorov distance
        d = max(abs((i + 1) / n - (1 - math.exp(-a * x))) for i, x in enumerate(logs))
        ctx.check(d <= 2.6 / math.sqrt(n), "the stake distribution is not a Pareto distribution", distance=d, shape=a, **info)

        # the largest value of n: P(max of n exponentials < ln n - 3.3) and P(... > ln n + 22) are below 1e-9
        top = logs[-1] * a - math.log(n)
        ctx.check(-3.3 <= top <= 22, "the largest stake does not fit the requested Pareto distribution", top=top, shape=a, **info)
