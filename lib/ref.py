"""Reference model, written from the documentation of the engine: reward formulas, utilities and the decision procedure
of an agent, over the plain data of view.py. Nothing of the code under test is imported here."""
import heapq
import math
from math import fsum

MIN = 2.2e-17
BOOST = 1e-6
CURVE_ROOT, CROSSOVER = 3, 8


def sat(V, pledge):
    return min(V["a0"] * pledge, V["beta"]) if V["scheme"] == 4 else V["beta"]


def reward(V, pledge, stake):
    a0, b, scheme = V["a0"], V["beta"], V["scheme"]
    if scheme == 4:
        return min(stake, sat(V, pledge))
    s = min(stake, b)
    if scheme == 3:
        pl = min(pledge ** (1 / CURVE_ROOT) * (b / CROSSOVER) ** ((CURVE_ROOT - 1) / CURVE_ROOT), b)
    else:
        pl = min(pledge, b)
    if scheme in (0, 3):
        return 1 / (1 + a0) * (s + pl * a0 * ((s - pl * (1 - s / b)) / b))
    if scheme == 1:
        return 1 / (1 + a0) * s * (1 + a0 * pl / b)
    return 1 / (1 + a0) * (s + a0 * pl)


def potential_profit(V, pledge, cost):
    return reward(V, pledge, sat(V, pledge)) - cost


def operator_share(margin, cost, r, fraction):
    profit = r - cost
    return profit if profit <= 0 else profit * (margin + (1 - margin) * fraction)


def delegator_share(margin, cost, r, fraction):
    return max((1 - margin) * fraction * (r - cost), 0)


def operator_utility(V, stake, pledge, margin, cost):
    return operator_share(margin, cost, reward(V, pledge, stake), pledge / stake if stake > 0 else 0)


def delegator_utility(V, alloc, stake, pledge, margin, cost):
    return delegator_share(margin, cost, reward(V, pledge, stake), alloc / stake if stake > 0 else 0)


def desirability(margin, pp):
    return max((1 - margin) * pp, 0)


def myopic_desirability(V, p):
    return max((1 - p["margin"]) * (reward(V, p["pledge"], p["stake"]) - p["cost"]), 0)


def cost_per_pool(cost, phi, t):
    return (cost + (t - 1) * phi * cost) / t


def pledge_per_pool(V, stake, t):
    return min(stake / t, V["beta"])


def suitable_margin(pp, target):
    return max(1 - target / pp, 0) if pp > 0 else 0


def key_nonmyopic(p):
    return -p["des"], -p["pp"], p["id"]


def rank(V, myopic):
    """Live pools from best to worst, with None in the place of the (always sufficiently many) empty positions."""
    if myopic:
        items = [((-myopic_desirability(V, p), p["id"]), p) for p in V["pools"].values()]
        items.sort(key=lambda x: x[0])
        none_key = (0, 0, 0)
    else:
        items = sorted(((key_nonmyopic(p), p) for p in V["pools"].values()), key=lambda x: x[0])
        none_key = (0, 0, 0)
    good = [p for key, p in items if key < none_key]
    bad = [p for key, p in items if not key < none_key]
    return good, bad


def close_pairs(V, myopic, eps=1e-13):
    """True if two different pools are so close in rank that rounding may decide their order."""
    if not myopic:
        return False
    vals = sorted(myopic_desirability(V, p) for p in V["pools"].values())
    return any(0 < b - a <= eps * max(1e-3, abs(b)) for a, b in zip(vals, vals[1:])) or any(0 < v < 1e-15 for v in vals)


def greedy_allocation(V, a, amount, order):
    """order: public pools of others, best first. Fill up the unsaturated ones in turn; what does not fit goes to the best
    of the pools that were already full."""
    if amount < MIN or not order:
        return {}
    mine = a["strategy"]["alloc"]
    out, full = {}, None
    for p in order:
        stake = p["stake"] - mine.get(p["id"], 0)
        room = sat(V, p["pledge"]) - stake
        if room < MIN:
            if full is None:
                full = p["id"]
            continue
        x = min(amount, room)
        amount -= x
        out[p["id"]] = x
        if amount < MIN:
            break
    if amount >= MIN and full is not None:
        out[full] = amount
    return out


class Planner:
    """The options of one agent in the state V (taken right before the agent is activated)."""

    def __init__(self, V, aid):
        self.V, self.a = V, V["agents"][aid]
        self.aid = aid
        self.myopic = self.a["kind"] == "myopic"
        self.good, self.bad = rank(V, self.myopic)
        self.eligible = [p for p in self.good + self.bad if p["owner"] != aid and not p["private"]]
        others = [p for p in V["pools"].values() if p["owner"] != aid]
        self.others_nm = sorted(others, key=key_nonmyopic)
        self.own = [V["pools"][i] for i in self.a["strategy"]["owned"]]
        self.all_nm = sorted(V["pools"].values(), key=key_nonmyopic)
        self.ambiguous = False

    # --- delegation
    def allocation(self, amount=None):
        return greedy_allocation(self.V, self.a, self.a["stake"] if amount is None else amount, self.eligible)

    def in_top(self, before):
        return fsum(sat(self.V, q["pledge"]) for q in before) + MIN < self.V["total"]

    def expected_delegation_utility(self, alloc):
        V, u = self.V, 0
        mine = self.a["strategy"]["alloc"]
        for pid, x in alloc.items():
            p = V["pools"].get(pid)
            if p is None:
                continue
            stake = p["stake"] - mine.get(pid, 0) + x
            if not self.myopic:
                before = self.all_nm[:self.all_nm.index(p)]
                nm = max(sat(V, p["pledge"]), p["stake"]) if self.in_top(before) else p["pledge"]
                stake = max(nm, stake)
            if stake < 1e-13:   # what rounding left in an empty pool
                self.ambiguous = True
            u += delegator_utility(V, x, stake, p["pledge"], p["margin"], p["cost"])
        return u

    def expected_operator_utility(self, pools):
        V, u = self.V, 0
        if self.myopic:
            return sum(operator_utility(V, p["stake"], p["pledge"], p["margin"], p["cost"]) for p in pools)
        everything = sorted(self.others_nm + list(pools), key=key_nonmyopic)
        ids = [p["id"] for p in everything]
        for p in pools:
            before = everything[:ids.index(p["id"])]
            stake = max(sat(V, p["pledge"]), p["stake"]) if self.in_top(before) else p["pledge"]
            u += operator_utility(V, stake, p["pledge"], p["margin"], p["cost"])
        return u

    def expected(self, alloc, pools):
        return (self.expected_operator_utility(pools) if pools else 0) + self.expected_delegation_utility(alloc)

    def current_utility(self):
        V, u = self.V, 0
        for p in self.own:
            u += operator_utility(V, p["stake"], p["pledge"], p["margin"], p["cost"])
        for pid, x in self.a["strategy"]["alloc"].items():
            p = V["pools"][pid]
            u += delegator_utility(V, x, p["stake"], p["pledge"], p["margin"], p["cost"])
        return u

    def augmented_current(self):
        cur, exp = self.current_utility(), self.expected(self.a["strategy"]["alloc"], self.own)
        r, ab = self.V["rel"], self.V["abs"]
        return max((1 + r) * cur, cur + ab, (1 + r) * exp, exp + ab)

    # --- operation
    def target(self, t):
        """What a pool has to beat in order to rank among the top k together with t-1 others of the same agent."""
        good = [p for p in self.good if p["owner"] != self.aid]
        i = self.V["k"] - t
        return good[i] if i < len(good) else None

    def margins_and_utility(self, t):
        V = self.V
        cost = cost_per_pool(self.a["cost"], V["phi"], t)
        pledge = pledge_per_pool(V, self.a["stake"], t)
        s = sat(V, pledge)
        margins, u = [], 0
        if self.myopic:
            total = max(sum(p["stake"] for p in self.own), self.a["stake"])
            profit = reward(V, pledge, total / t) - cost
            for i in range(1, t + 1):
                q = self.target(i)
                goal = (0 if q is None else myopic_desirability(V, q)) + BOOST
                margins.append(suitable_margin(profit, goal))
                u += operator_utility(V, s, pledge, margins[-1], cost)
            return margins, u
        pp = potential_profit(V, pledge, cost)
        for i in range(1, t + 1):
            q = self.target(i)
            des, qpp = (0, 0) if q is None else (q["des"], q["pp"])
            des += BOOST
            if abs(pp - des) < 1e-15:
                self.ambiguous = True
            if pp < des:
                margins.append(0)
                u += operator_utility(V, pledge, pledge, 0, cost)
            else:
                margins.append(suitable_margin(pp, max(des, qpp)))
                u += operator_utility(V, s, pledge, margins[-1], cost)
        return margins, u

    def choose_count(self, eps=1e-12):
        lo, hi = 1, self.V["k"]
        while True:
            t = math.floor((lo + hi) / 2)
            m, u = self.margins_and_utility(t)
            if t > lo:
                um = self.margins_and_utility(t - 1)[1]
                if abs(um - u) <= eps * max(abs(u), 1e-4):
                    self.ambiguous = self.ambiguous or um != u
                if um > u:
                    hi = t - 1
                    continue
            if t < hi:
                up = self.margins_and_utility(t + 1)[1]
                if abs(up - u) <= eps * max(abs(u), 1e-4):
                    self.ambiguous = self.ambiguous or up != u
                if up > u:
                    lo = t + 1
                    continue
            return t, m

    def keepers(self, t):
        if t < len(self.own):
            key = [(p["des"], p["pp"], p["stake"], -p["id"]) for p in self.own]
            return {-x[3] for x in heapq.nlargest(t, key)}
        return None

    def operator_option(self):
        """-> (t, margins, pledge, cost, kept ids, allocation of the rest, lowest and highest utility it may promise)"""
        V = self.V
        t, margins = self.choose_count()
        pledge = pledge_per_pool(V, self.a["stake"], t)
        cost = cost_per_pool(self.a["cost"], V["phi"], t)
        keep = self.keepers(t)
        if keep is None:
            orders = [[p["id"] for p in self.own]]
        else:
            orders = [list(keep), sorted(keep), sorted(keep, key=lambda i: key_nonmyopic(V["pools"][i]))]
        rest = self.a["stake"] - pledge * t
        alloc = self.allocation(rest) if rest > 0 else {}
        pp = potential_profit(V, pledge, cost)
        private = pledge >= sat(V, pledge)
        us = []
        for ids in orders:
            pools = []
            for i in range(t):
                if i < len(ids):
                    old = V["pools"][ids[i]]
                    pid, stake = ids[i], old["stake"] - (old["pledge"] - pledge)
                else:
                    pid, stake = 10 ** 12 + i, pledge
                pools.append({"id": pid, "owner": self.aid, "stake": stake, "pledge": pledge, "cost": cost,
                              "margin": margins[i], "private": private, "pp": pp,
                              "des": desirability(margins[i], pp)})
            us.append(self.expected(alloc, pools))
        return {"t": t, "margins": margins, "pledge": pledge, "cost": cost, "private": private, "pp": pp,
                "kept": set(orders[0]), "alloc": alloc, "lo": min(us), "hi": max(us)}


def close_(a, b, rel=1e-9, abs_=1e-13):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
