"""Independent recomputation of the documented metrics from the plain view of a model's state."""
import itertools
import statistics
from math import fsum

import ref

# ids and names as documented in docs/metrics.md
NAMES = {1: "Pool count", 2: "Total pledge", 3: "Mean pledge", 4: "Median pledge", 5: "Average pools per operator",
         6: "Max pools per operator", 7: "Median pools per operator", 8: "Average saturation rate", 9: "Nakamoto coefficient",
         10: "Statistical distance", 11: "Min-aggregate pledge", 12: "Pledge rate", 13: "Pool homogeneity factor",
         14: "Iterations", 15: "Mean stake rank", 16: "Mean cost rank", 17: "Median stake rank", 18: "Median cost rank",
         19: "Number of pool splitters", 20: "Cost efficient stakeholders", 21: "StakePairs", 22: "Gini-id",
         23: "Gini-id stake", 24: "Mean margin", 25: "Median margin", 26: "Stake per agent", 27: "Stake per agent id",
         28: "Total delegated stake", 29: "Total agent stake", 30: "Operator count"}
IDS = {v: k for k, v in NAMES.items()}


def near(x, y, rel=1e-9, abs_=1e-11):
    return abs(x - y) <= max(abs_, rel * max(abs(x), abs(y)))


def per_owner(V, f):
    out = {}
    for p in V["pools"].values():
        out[p["owner"]] = out.get(p["owner"], 0) + f(p)
    return out


def gini(values):
    n, total = len(values), fsum(values)
    if not n or total == 0:
        return -1        # undefined
    return fsum(abs(x - y) for x in values for y in values) / (2 * n * total)


def ranks(values):
    """rank 1 for the highest value, older (lower) ids first among equals"""
    order = sorted(values, key=lambda i: (-values[i], i))
    return {a: i + 1 for i, a in enumerate(order)}


def majority(values):
    """The possible values of the minimum number of holders of more than half (a range, for sums within rounding of a half)."""
    total = fsum(values)
    vals = sorted(values, reverse=True)
    out = []
    # multiples of 2^-40 are added without rounding, in whatever order: then exactly half is not a majority
    exact = all(v * 2.0 ** 40 == int(v * 2.0 ** 40) for v in values)
    for half in ((total / 2,) if exact else (total / 2 - 1e-11, total / 2 + 1e-11)):
        for i in range(1, len(vals) + 1):
            if fsum(vals[:i]) > half:
                out.append(i)
                break
    return out


def expected(V, name):
    """None if nothing is specified; else a function that tells whether a value is right, and what was expected."""
    pools, agents = list(V["pools"].values()), V["agents"]

    def num(x):
        return (lambda y: near(y, x)), x

    def exact(x):
        return (lambda y: y == x), x

    def rounded(x):
        return (lambda y: y == int(y) and abs(y - x) <= 0.5 + 1e-9), x
    i = IDS[name]
    n = len(pools)
    pledges = [p["pledge"] for p in pools]
    counts = per_owner(V, lambda p: 1)
    stakes = per_owner(V, lambda p: p["stake"])
    if i == 1:
        return exact(n)
    if i == 2:
        return num(fsum(pledges))
    if i in (3, 4):
        return num((statistics.fmean if i == 3 else statistics.median)(pledges) if n else 0)
    if i == 5:
        return num(n / len(counts) if n else 0)
    if i == 6:
        return exact(max(counts.values(), default=0))
    if i == 7:
        return num(statistics.median(counts.values()) if n else 0)
    if i == 8:
        if any(ref.sat(V, p["pledge"]) == 0 for p in pools):
            return None
        return num(fsum(p["stake"] / ref.sat(V, p["pledge"]) for p in pools) / n if n else 0)
    if i == 9:
        if not n:
            return exact(0)
        if fsum(stakes.values()) <= 1e-9:
            return None
        options = majority(list(stakes.values()))
        return (lambda y: min(options) <= y <= max(options) and y == int(y)), options
    if i == 10:
        return num(fsum(abs(stakes.get(a, 0) - x["stake"]) for a, x in agents.items()) / 2 if n else 0)
    if i == 11:
        if n > 10:
            return None
        lo, hi = min_aggregate_pledge(V)
        return (lambda y: y == -2 or lo - 1e-5 <= y <= hi + 1e-5), [lo, hi]   # -2: the solver found nothing
    if i == 12:
        total = fsum(p["stake"] for p in pools)
        return num(fsum(pledges) / total if total > 0 else 0)
    if i == 13:
        top = max((p["stake"] for p in pools), default=0)
        return num(fsum(p["stake"] for p in pools) / (n * top) if top > 0 else 0)
    if i == 14:
        return exact(V["steps"])
    if i in (15, 16, 17, 18):
        if not n:
            return exact(0)
        r = ranks({a: x["stake"] if i in (15, 17) else -x["cost"] for a, x in agents.items()})
        rs = [r[p["owner"]] for p in pools]
        return rounded(statistics.fmean(rs) if i in (15, 16) else statistics.median(rs))
    if i == 19:
        return exact(sum(1 for c in counts.values() if c > 1))
    if i == 20:
        profits = [ref.potential_profit(V, a["stake"], a["cost"]) for a in agents.values()]
        lo, hi = sum(1 for x in profits if x > 1e-14), sum(1 for x in profits if x > -1e-14)
        return (lambda y: lo <= y <= hi and y == int(y)), [lo, hi]
    if i == 21:
        want = {"x": [agents[p["owner"]]["stake"] for p in pools], "y": [p["stake"] for p in pools],
                "r": [p["margin"] for p in pools], "pool_id": [p["id"] for p in pools], "owner_id": [p["owner"] for p in pools]}

        def same(y):
            rows = sorted(zip(*[y[c] for c in ("pool_id", "owner_id", "x", "y", "r")]))
            return set(y) == set(want) and len({len(v) for v in y.values()}) == 1 and \
                rows == sorted(zip(*[want[c] for c in ("pool_id", "owner_id", "x", "y", "r")]))
        return same, want
    if i == 22:
        return num(gini(list(counts.values())))
    if i == 23:
        if n and fsum(stakes.values()) <= 1e-9:
            return None
        return num(gini(list(stakes.values())))
    if i in (24, 25):
        return num((statistics.fmean if i == 24 else statistics.median)([p["margin"] for p in pools]) if n else 0)
    if i in (26, 27):
        want = [stakes.get(a, 0) for a in sorted(agents)]
        if i == 26:
            return (lambda y: len(y) == len(want) and all(near(a, b) for a, b in zip(y, want))), want
        return (lambda y: sorted(y) == sorted(agents) and all(near(y[a], stakes.get(a, 0)) for a in agents)), want
    if i == 28:
        return num(fsum(p["stake"] for p in pools))
    if i == 29:
        return num(fsum(a["stake"] for a in agents.values()))
    if i == 30:
        return exact(len(counts))
    return None


def min_aggregate_pledge(V):
    """By brute force; the two values with and without sets that hold half of the stake up to rounding."""
    pools = list(V["pools"].values())
    half = fsum(p["stake"] for p in pools) / 2
    out = []
    for need in (half * (1 - 1e-5), half * (1 + 1e-5)):
        out.append(min((fsum(p["pledge"] for p in c) for k in range(len(pools) + 1) for c in itertools.combinations(pools, k)
                        if fsum(p["stake"] for p in c) >= need), default=0))
    return out
