"""Online monitors over live simulations. Each one turns the events it sees into verdicts through ctx (see worker.Ctx)."""
import random

import ref
import sut
from view import params_view, pool_view, staged, strategy_view, view

TOL = 1e-10       # accumulated rounding in stake sums
UEPS = 1e-14      # rounding in utilities


def eps(u):
    return UEPS + 1e-11 * abs(u)


class AfterEveryMove(sut.Monitor):
    """Calls self.inspect(V, m, where) whenever the state is quiescent: after every activation that is not in the middle of
    another one, and at the end of every step."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.failed = False

    def attach(self, m):
        self._do(m, "start")

    def agent_step_end(self, m, a):
        self._do(m, "activation of agent %d" % a.unique_id)

    def advance_end(self, m, a):
        if "simultaneous" in m.agent_activation_order:
            self._do(m, "advance of agent %d" % a.unique_id)

    def step_end(self, m):
        self._do(m, "end of step")

    def finish(self, m):
        self._do(m, "end of run")

    def _do(self, m, where):
        # in big systems, not every single activation is inspected
        self.seq = getattr(self, "seq", 0) + 1
        if self.failed or (self.seq % 4 and len(m.schedule.agents) > 45 and where[:3] != "end"):
            return
        before = len(self.ctx.violations)
        V = view(m)
        self.ctx.count("states_checked")
        if V["pools"]:
            self.ctx.count("states_with_pools")
        self.inspect(V, m, "round %d, %s" % (V["steps"], where))
        self.failed = len(self.ctx.violations) > before

    def inspect(self, V, m, where):
        raise NotImplementedError


class Ledger(AfterEveryMove):
    def inspect(self, V, m, where):
        c, pools, agents = self.ctx, V["pools"], V["agents"]
        for pid, p in pools.items():
            total = p["pledge"] + sum(p["delegators"].values())
            c.check(abs(total - p["stake"]) <= TOL, "the stake of a pool is not its pledge plus its delegations",
                    pool=p, expected=total, where=where)
            c.check(p["id"] == pid, "a pool is registered under another id", pool=p, where=where)
            owner = agents.get(p["owner"])
            if c.check(owner is not None and owner["strategy"] is not None and pid in owner["strategy"]["owned"],
                       "a live pool is not among the pools of its owner", pool=p, where=where):
                obj = m.pools[pid]
                own = next(a for a in m.schedule.agents if a.unique_id == p["owner"]).strategy.owned_pools[pid]
                c.check(own is obj or pool_view(own) == pool_view(obj),
                        "the owner of a pool sees different data for it than the system", pool=p, where=where)
            if p["private"]:
                c.check(not p["delegators"], "a private pool has delegators", pool=p, where=where)
            for aid, x in p["delegators"].items():
                c.count("delegations_checked")
                a = agents.get(aid)
                have = a["strategy"]["alloc"].get(pid) if a is not None and a["strategy"] is not None else None
                c.check(have is not None and abs(have - x) <= 1e-15,
                        "a pool counts a delegation that the delegator has not made", pool=p, agent=a, where=where)
                c.check(aid != p["owner"], "an agent delegates to their own pool", pool=p, where=where)
        for aid, a in agents.items():
            if a["strategy"] is None:
                continue
            for pid, x in a["strategy"]["alloc"].items():
                if c.check(pid in pools, "an agent delegates to a pool that does not exist (any more)", agent=a, pool=pid,
                           where=where):
                    got = pools[pid]["delegators"].get(aid, 0)
                    c.check(abs(got - x) <= 1e-15, "a delegation is not counted by the pool it goes to", agent=a,
                            pool=pools[pid], where=where)
            for pid in a["strategy"]["owned"]:
                c.check(pid in pools and pools[pid]["owner"] == aid, "an agent owns a pool that the system does not have",
                        agent=a, pool=pid, where=where)


class Budget(AfterEveryMove):
    """No agent commits more stake than they own."""

    def attach(self, m):
        self.initial = {a.unique_id: (a.stake, a.cost) for a in m.schedule.agents}
        self.active = sum(s for s, _ in self.initial.values())
        super().attach(m)

    def inspect(self, V, m, where):
        c, pools = self.ctx, V["pools"]
        c.check({i: (a["stake"], a["cost"]) for i, a in V["agents"].items()} == self.initial,
                "an agent's own stake or cost changed during the run", where=where)
        total = 0
        for aid, a in V["agents"].items():
            s = a["strategy"]
            pledged = sum(p["pledge"] for p in pools.values() if p["owner"] == aid)
            delegated = sum(p["delegators"].get(aid, 0) for p in pools.values())
            said = sum(s["alloc"].values()) if s else 0
            c.count("agents_checked")
            if pledged + delegated > 0:
                c.count("agents_with_stake_in_use")
            c.check(pledged + max(delegated, said) <= a["stake"] + 1e-12 + 1e-9 * a["stake"],
                    "an agent commits more stake than they own",
                    agent=a, pledged=pledged, delegated=delegated, said=said, where=where)
            if s:
                c.check(all(x >= 0 for x in s["alloc"].values()), "a delegation is negative", agent=a, where=where)
            if a["kind"] == "abstainer":
                c.check(pledged == 0 and delegated == 0 and said == 0, "an abstainer uses their stake", agent=a, where=where)
            total += pledged + delegated
        pooled = sum(p["stake"] for p in pools.values())
        for p in pools.values():
            c.check(0 <= p["pledge"] <= p["stake"] + TOL, "a pool's stake is below its pledge", pool=p, where=where)
        c.check(pooled <= self.active + TOL, "the pools hold more stake than there is", pooled=pooled, active=self.active,
                where=where)
        c.check(abs(pooled - total) <= TOL, "the stake of the pools is not the stake that agents committed", pooled=pooled,
                committed=total, where=where)


class Rankings(AfterEveryMove):
    def inspect(self, V, m, where):
        c = self.ctx
        live = list(m.pools.values())
        for name, ranking, myopic in (("long-term", m.pool_rankings, False), ("myopic", m.pool_rankings_myopic, True)):
            ranked = [p for p in ranking if p is not None]
            ids = [p.id for p in ranked]
            if not c.check(sorted(ids) == sorted(V["pools"]) and all(any(p is q for q in live) for p in ranked),
                           "the %s ranking does not consist of exactly the live pools" % name, ranked=ids,
                           live=sorted(V["pools"]), where=where):
                continue
            empty = [i for i, p in enumerate(ranking) if p is None]
            c.check(len(ranking) > V["k"], "the %s ranking has no position k" % name, where=where, length=len(ranking))
            first_empty = empty[0] if empty else len(ranking)
            prev = None
            for i, p in enumerate(ranking):
                if p is None:
                    continue
                q = V["pools"][p.id]
                score = (ref.myopic_desirability(V, q),) if myopic else \
                    (ref.desirability(q["margin"], ref.potential_profit(V, q["pledge"], q["cost"])),
                     ref.potential_profit(V, q["pledge"], q["cost"]))
                if score[0] > 1e-12:
                    c.check(i < first_empty, "a desirable pool is ranked after an empty position (%s ranking)" % name,
                            pool=q, where=where)
                c.count("positions_checked")
                if prev is not None:
                    if myopic:
                        ok = prev[0][0] >= score[0] - 1e-13
                    else:
                        ok = ref.key_nonmyopic(prev[1]) < ref.key_nonmyopic(q) and prev[0][0] >= score[0] - 1e-13
                    same = prev[1]["margin"] == q["margin"] and prev[1]["cost"] == q["cost"] and \
                        prev[1]["pledge"] == q["pledge"] and (not myopic or prev[1]["stake"] == q["stake"])
                    if same:
                        c.count("ties_checked")
                        ok = prev[1]["id"] < q["id"]
                    c.check(ok, "the %s ranking is out of order" % name, better=prev[1], worse=q, where=where)
                prev = (score, q)


class Derived(AfterEveryMove):
    def inspect(self, V, m, where):
        c = self.ctx
        for p in V["pools"].values():
            c.count("pools_checked")
            pp = ref.potential_profit(V, p["pledge"], p["cost"])
            c.check(ref.close_(pp, p["pp"]), "a pool's potential profit is not its profit at saturation under the reward "
                    "scheme in force", pool=p, expected=pp, where=where)
            des = ref.desirability(p["margin"], pp)
            c.check(ref.close_(des, p["des"]), "a pool's desirability does not follow from its margin and potential profit",
                    pool=p, expected=des, where=where)
            c.check(0 <= p["margin"] <= 1, "a margin is not between 0 and 1", pool=p, where=where)
            c.check(p["cost"] >= 0 and p["pledge"] >= 0, "a cost or pledge is negative", pool=p, where=where)


class Decisions(sut.Monitor):
    """Compares every decision with the reference planner. `what` selects which part of the specification is decided."""

    def __init__(self, ctx, what, every=1, critical=None):
        self.ctx, self.what, self.every = ctx, what, every
        self.i = 0
        self.r = random.Random(critical) if critical is not None else None

    def agent_step_begin(self, m, a):
        self.plan = None
        if a.strategy is None:
            return
        self.i += 1
        if self.i % self.every:
            return
        self.V = view(m)
        self.old = a.strategy
        self.old_pools = {pid: pool_view(p) for pid, p in a.strategy.owned_pools.items()}
        self.plan = ref.Planner(self.V, a.unique_id)
        self.vague = ref.close_pairs(self.V, self.plan.myopic)
        self.thresholds = None
        if self.r is not None and self.r.random() < 0.5:
            self.set_critical_thresholds(m)

    def set_critical_thresholds(self, m):
        """For this one turn, set the thresholds such that the agent's best option only just exceeds them, or only just does
        not: the decision then depends on every digit of the utilities."""
        plan = self.plan
        op = plan.operator_option()
        du = plan.expected_delegation_utility(plan.allocation())
        best = max(du, op["lo"])
        now = max(plan.current_utility(), plan.expected(plan.a["strategy"]["alloc"], plan.own))
        if plan.ambiguous or op["lo"] != op["hi"] or best <= now + 1e-12 or now < 0:
            return
        delta = self.r.choice([-1, 1]) * (2e-14 + 1e-9 * best)
        rel, ab = 0, best - now + delta
        if now > 1e-9 and self.r.random() < 0.5:
            rel, ab = (best + delta) / now - 1, 0
        if rel < 0 or ab < 0:
            return
        self.thresholds = m.relative_utility_threshold, m.absolute_utility_threshold
        m.relative_utility_threshold = self.V["rel"] = rel
        m.absolute_utility_threshold = self.V["abs"] = ab
        self.ctx.count("critical_thresholds")
        if du > op["hi"]:
            self.ctx.count("critical_delegations")

    def agent_step_end(self, m, a):
        if self.plan is None:
            return
        if self.thresholds is not None:
            m.relative_utility_threshold, m.absolute_utility_threshold = self.thresholds
        if "simultaneous" in self.V["order"]:
            new = staged(a)
        elif a.strategy is self.old:
            new = None
        else:
            new = {"alloc": dict(a.strategy.stake_allocations),
                   "owned": [pool_view(p) for p in a.strategy.owned_pools.values()]}
        where = "round %d, agent %d" % (self.V["steps"], a.unique_id)
        self.ctx.count("decisions")
        kind = "stay" if new is None else ("operate" if new["owned"] else "delegate")
        was = "operator" if self.old_pools else ("delegator" if self.V["agents"][a.unique_id]["strategy"]["alloc"] else "idle")
        self.ctx.count("decision_%s" % kind)
        self.ctx.seen("%s>%s/%s/%s/%s" % (was, kind, self.plan.a["kind"], self.V["scheme"], self.V["order"]))
        getattr(self, self.what)(self.plan, new, where)

    # --- C08
    def rationality(self, plan, new, where):
        c = self.ctx
        alloc = plan.allocation()
        du = plan.expected_delegation_utility(alloc)
        op = plan.operator_option()
        aug = plan.augmented_current()
        if plan.ambiguous or self.vague:
            c.count("ambiguous")
            return
        info = {"where": where, "agent": plan.a, "current_plus_threshold": aug, "delegate": du, "operate": [op["lo"], op["hi"]],
                "new": new}
        e = eps(max(abs(aug), abs(du), abs(op["hi"])))
        if max(du, op["lo"]) > aug + e:
            c.count("had_better_option")
        if new is None:
            c.check(max(du, op["lo"]) <= aug + e, "an agent kept their strategy although an option exceeds it by more than "
                    "the thresholds", **info)
            return
        if new["owned"]:
            c.check(op["hi"] >= aug - e, "an agent opened or changed pools without a gain above the thresholds", **info)
            c.check(op["hi"] >= du - e, "an agent operates pools although delegating promises more", **info)
        else:
            c.check(du >= aug - e, "an agent moved to delegation without a gain above the thresholds", **info)
            c.check(du >= op["lo"] - e, "an agent delegates although operating pools promises more", **info)

    # --- C09
    def delegation(self, plan, new, where):
        c = self.ctx
        if new is None or self.vague:
            return
        if new["owned"]:
            pledged = sum(p["pledge"] for p in new["owned"])
            rest = plan.a["stake"] - pledged
            if abs(rest) < 1e-13:
                c.check(sum(new["alloc"].values()) < 1e-12, "an agent delegates stake that is pledged", where=where, new=new)
                return
            want = plan.allocation(rest) if rest > 0 else {}
            c.count("operator_remainders")
        else:
            want = plan.allocation()
        c.count("allocations_checked")
        c.count("allocations_over_%s_pools" % (len(want) if len(want) < 4 else "4+"))
        if any(p["stake"] - plan.a["strategy"]["alloc"].get(p["id"], 0) > ref.sat(self.V, p["pledge"]) - ref.MIN
               for p in plan.eligible):
            c.count("allocations_with_saturated_pools")
        tiny = 1e-12
        keys = {i for i, x in want.items() if x > tiny} | {i for i, x in new["alloc"].items() if x > tiny}
        bad = [i for i in keys if abs(want.get(i, 0) - new["alloc"].get(i, 0)) > tiny]
        c.check(not bad, "stake was not delegated to the best-ranked public pools with room for it", where=where,
                got=new["alloc"], expected=want,
                ranking=[(p["id"], p["owner"], p["stake"], ref.sat(self.V, p["pledge"])) for p in plan.eligible[:8]],
                agent=plan.a)

    # --- C10
    def operation(self, plan, new, where):
        c = self.ctx
        if new is None or not new["owned"]:
            return
        V, got = self.V, new["owned"]
        t = len(got)
        info = {"where": where, "agent": plan.a, "new": new}
        c.count("operator_moves")
        if t > 1:
            c.count("multi_pool_moves")
        pledge = ref.pledge_per_pool(V, plan.a["stake"], t)
        cost = ref.cost_per_pool(plan.a["cost"], V["phi"], t)
        c.check(1 <= t <= V["k"], "an agent operates more pools than the target number of the system", **info)
        for p in got:
            c.check(ref.close_(p["pledge"], pledge), "the pledge of a pool is not the operator's stake divided evenly, up to "
                    "saturation", expected=pledge, **info)
            c.check(ref.close_(p["cost"], cost), "the cost of a pool is not the average cost of that number of pools",
                    expected=cost, **info)
            c.check(p["private"] == (p["pledge"] >= ref.sat(V, p["pledge"])), "a pool is private although its pledge does not "
                    "saturate it, or public although it does", **info)
            c.check(p["owner"] == plan.aid, "an agent operates a pool of someone else", **info)
            c.check(0 <= p["margin"] <= 1, "a margin is not between 0 and 1", **info)
        old = self.old_pools
        kept = {p["id"] for p in got} & set(old)
        c.check(len(kept) == min(t, len(old)), "an operator opened a pool in the place of one they closed",
                kept=sorted(kept), had=sorted(old), **info)
        if t < len(old):
            c.count("moves_that_close_some_pools")
            best = plan.keepers(t)
            c.check(kept == set(best), "an operator did not keep the best-ranked of their pools", kept=sorted(kept),
                    had=list(old.values()), **info)
        fresh = [p for p in got if p["id"] not in old]
        c.check(all(p["id"] not in V["pools"] for p in fresh), "a new pool takes the id of an existing one", **info)
        rt, margins = plan.choose_count()
        if plan.ambiguous or self.vague:
            c.count("ambiguous")
            return
        c.check(rt == t, "the number of pools is not the one that the search for the best number of pools gives",
                expected=rt, **info)
        want, have = sorted(margins), sorted(p["margin"] for p in got)
        if rt == t:
            c.check(all(ref.close_(x, y, 1e-9, 1e-9) for x, y in zip(want, have)),
                    "the margins are not the highest ones that outrank the pools to beat", expected=want, **info)


class Activation(sut.Monitor):
    def __init__(self, ctx):
        self.ctx = ctx
        self.events = []
        self.orders = []
        self.depth = 0

    def step_begin(self, m):
        self.events = []
        self.before = m.schedule.steps

    def agent_step_begin(self, m, a):
        self.events.append(("decide", a.unique_id))

    def advance_begin(self, m, a):
        self.events.append(("apply", a.unique_id))

    def step_end(self, m):
        c, n, ev = self.ctx, len(m.schedule.agents), self.events
        order = m.agent_activation_order
        if m.schedule.steps == self.before:
            c.check(not ev, "agents were activated outside of a round", events=ev[:20])
            return
        c.count("rounds")
        c.count("rounds_" + order)
        info = {"order": order, "round": self.before, "events": ev[:60], "n": n}
        decide = [x for k, x in ev if k == "decide"]
        apply_ = [x for k, x in ev if k == "apply"]
        ids = sorted(a.unique_id for a in m.schedule.agents)
        if not c.check(sorted(decide) == ids, "not every agent got to act exactly once in a round", **info):
            return
        if not c.check(sorted(apply_) == ids, "not every agent's move was applied exactly once in a round", **info):
            return
        self.orders.append(tuple(decide))
        if order == "random" and n >= 20:
            c.count("shuffled_rounds")
            c.check(decide != ids and decide != ids[::-1], "the agents were not activated in a random order", **info)
        if order in ("random", "sequential"):
            c.check(ev == [e for x in decide for e in (("decide", x), ("apply", x))],
                    "an agent's move was not applied before the next agent decided", **info)
            if order == "sequential":
                c.check(decide == ids, "agents were not activated in the order of their ids", **info)
        elif order == "simultaneous":
            c.check([k for k, _ in ev] == ["decide"] * n + ["apply"] * n,
                    "a move was applied before all agents had decided", **info)
        else:
            i = 0
            while i < n:
                g = min(5, n - i)
                chunk = ev[2 * i:2 * i + 2 * g]
                if not c.check([k for k, _ in chunk] == ["decide"] * g + ["apply"] * g and
                               sorted(x for k, x in chunk if k == "decide") == sorted(x for k, x in chunk if k == "apply"),
                               "agents did not act in groups of five that decide together and then apply their moves",
                               group=chunk, **info):
                    break
                i += g

    def finish(self, m):
        c, n = self.ctx, len(m.schedule.agents)
        order = m.agent_activation_order
        if order in ("random", "semisimultaneous") and n >= 8 and len(self.orders) >= 3:
            # (by chance, two of 60 rounds with 8 agents have the same order once in twenty runs, but not three in a row)
            repeats = len(set(self.orders)) < len(self.orders) if n >= 16 else \
                any(a == b == d for a, b, d in zip(self.orders, self.orders[1:], self.orders[2:]))
            c.check(not repeats, "the activation order repeats between rounds", order=order, first=self.orders[0], n=n)
            c.count("runs_with_varying_order")


class RoundLog(sut.Monitor):
    """Records, per round: which agents changed their strategy, the parameters in force, the number of rounds."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rounds = []          # one entry per executed round
        self.collects = 0
        self.last = None

    def attach(self, m):
        self.params = [self._params(m)]

    @staticmethod
    def _params(m):
        v = params_view(m)
        v.pop("steps")
        v.pop("phase")
        v["max_iterations"] = m.max_iterations
        return v

    def collect_end(self, m):
        self.collects += 1

    def step_begin(self, m):
        self.strategies = {a.unique_id: a.strategy for a in m.schedule.agents}
        self.steps = m.schedule.steps
        self.before = self._params(m)

    def step_end(self, m):
        if m.schedule.steps == self.steps:
            self.stopped_without_round = True
            return
        moved = [a.unique_id for a in m.schedule.agents if a.strategy is not self.strategies[a.unique_id]]
        self.rounds.append({"moved": len(moved), "before": self.before, "after": self._params(m),
                            "equilibria": len(m.equilibrium_steps), "pivots": list(m.pivot_steps), "running": m.running})


def expected_params(cfg, phase):
    """What the configuration says about the parameters in force during a phase."""
    def at(name):
        v = cfg[name]
        return v[min(phase, len(v) - 1)] if isinstance(v, list) else v
    f = cfg["inactive_stake_fraction"] if cfg["inactive_stake_fraction_known"] else 0
    k = at("k")
    return {"k": k / (1 - f), "beta": (1 - f) / k, "a0": at("a0"), "phi": at("extra_pool_cost_fraction"),
            "rel": at("relative_utility_threshold"), "abs": at("absolute_utility_threshold"),
            "order": at("agent_activation_order").lower(), "max_iterations": at("max_iterations")}


class Phases(sut.Monitor):
    """Follows a run from outside: who moved in each round, hence when a phase must be at equilibrium, when the run must end and
    which parameters must be in force. Decides C12 (part "end") and C13 (part "params")."""

    def __init__(self, ctx, cfg, part):
        import scen
        self.ctx, self.cfg, self.part = ctx, cfg, part
        self.total = scen.n_phases(cfg)
        self.iac = cfg["iterations_after_convergence"]
        self.idle = self.phase = self.rounds = self.collects = 0
        self.expected_eq, self.expected_pivots = [], []
        self.ended = self.stopped = False
        self.interrupted = 0

    def fail(self, cond, msg, **detail):
        return self.ctx.check(cond, msg, round=self.rounds, phase=self.phase, **detail)

    @staticmethod
    def own(m):
        """What only an agent's own move changes: the strategy they hold and the terms of their pools."""
        return {a.unique_id: (id(a.strategy), None if a.strategy is None else
                              {i: (p.pledge, p.margin, p.cost, p.is_private) for i, p in a.strategy.owned_pools.items()})
                for a in m.schedule.agents}

    def attach(self, m):
        self.params(m, "at the start")

    def collect_end(self, m):
        self.collects += 1

    def params(self, m, where):
        if self.part != "params":
            return
        want, have = expected_params(self.cfg, self.phase), params_view(m)
        have["max_iterations"] = m.max_iterations
        self.ctx.count("parameter_checks")
        for name, x in want.items():
            y = have[name]
            if name == "k":
                ok = y == int(x) or (abs(x - round(x)) < 1e-9 and y == round(x))
            elif name == "beta":
                ok = ref.close_(x, y)
            elif name == "order":
                ok = x == y.lower()
            else:
                ok = x == y
            self.fail(ok, "the parameter %s does not have the value of the current phase" % name, expected=x, actual=y,
                      where=where)
        self.fail(m.current_phase == self.phase, "the system is in the wrong phase", actual=m.current_phase, where=where)

    def step_begin(self, m):
        self.before = self.own(m)
        self.keep = list(a.strategy for a in m.schedule.agents)   # keeps ids from being reused
        self.steps = m.schedule.steps
        self.V = view(m)
        self.params(m, "at the beginning of a round")

    def agent_step_begin(self, m, a):
        if self.part == "params" and m.schedule.steps != getattr(self, "checked", None):
            self.checked = m.schedule.steps
            self.params(m, "when the first agent of a round acts")

    def step_end(self, m):
        end = self.part == "end"
        limit = expected_params(self.cfg, self.phase)["max_iterations"]
        if m.schedule.steps == self.steps:
            self.stopped = True
            if end:
                self.ctx.count("ended_by_limit")
                self.fail(self.steps >= limit, "the run stopped before the round limit", limit=limit, steps=self.steps)
                self.fail(not m.running, "the run does not stop at the round limit", limit=limit)
            return
        after = self.own(m)
        moved = sum(1 for i in after if after[i] != self.before[i])
        if end:
            self.ctx.count("rounds_idle" if not moved else "rounds_with_moves")
            self.fail(m.schedule.steps == self.steps + 1, "a step is not one round")
            self.fail(self.steps < limit, "a round was run beyond the limit", limit=limit, steps=self.steps)
        if moved == 0:
            self.quiet_round(m)
        self.interrupted += bool(moved and self.idle)
        self.idle = 0 if moved else self.idle + 1
        self.rounds += 1
        if self.idle >= self.iac:
            self.expected_eq.append(self.steps - self.iac)
            self.ctx.count("equilibria")
            if self.phase < self.total - 1:
                self.phase += 1
                self.idle = 0
                self.expected_pivots.append(m.schedule.steps)
                self.ctx.count("phase_changes")
            else:
                self.ended = True
        if end:
            self.fail(list(m.equilibrium_steps) == self.expected_eq, "the recorded equilibria are not the points where no agent had "
                      "moved for the required number of rounds", recorded=list(m.equilibrium_steps), expected=self.expected_eq,
                      idle=self.idle, required=self.iac)
            self.fail(m.running == (not self.ended), "the run goes on after its last equilibrium" if m.running else
                      "the run stopped although its last phase is not at equilibrium", idle=self.idle, required=self.iac)
            self.fail(m.has_converged() == self.ended, "the reported convergence is wrong", idle=self.idle, required=self.iac)
        else:
            self.fail(list(m.pivot_steps) == self.expected_pivots, "the recorded parameter changes are not at the phase "
                      "boundaries", recorded=list(m.pivot_steps), expected=self.expected_pivots)
        self.params(m, "at the end of a round")

    def quiet_round(self, m):
        """A round in which nobody moved (also if the phase changed at its end) leaves pools and agents as they were."""
        if self.part != "params":
            return
        W = view(m)
        self.ctx.count("quiet_rounds")
        a, b = self.V["pools"], W["pools"]
        if self.fail(sorted(a) == sorted(b), "pools appeared or disappeared although nobody moved",
                     before=sorted(a), after=sorted(b)):
            for i in a:
                same = all(a[i][f] == b[i][f] for f in ("id", "owner", "pledge", "cost", "margin", "private")) and \
                    abs(a[i]["stake"] - b[i]["stake"]) <= 1e-12 and a[i]["delegators"] == b[i]["delegators"]
                self.fail(same, "a pool changed although nobody moved", before=a[i], after=b[i])
        self.fail(self.V["agents"] == W["agents"], "agents changed although nobody moved")

    def finish(self, m):
        if self.part != "end":
            return
        self.fail(not m.running, "the run returned without having ended", limit=self.cfg["max_iterations"], steps=m.schedule.steps)
        self.fail(self.ended != self.stopped, "the run ended neither at equilibrium nor at the round limit (or at both)",
                  ended=self.ended, stopped=self.stopped, steps=m.schedule.steps)
        self.fail(self.collects == self.rounds + (0 if self.ended else 1), "the results were not collected once per round",
                  collects=self.collects, rounds=self.rounds)
        if self.ended:
            self.ctx.count("ended_at_equilibrium")
        import json
        with open(m.directory / "final-state-descriptors.json") as f:
            said = json.load(f)["Equilibrium reached"]
        self.fail(said == ("Yes" if self.ended else "No"), "the final report is wrong about the equilibrium", said=said)


class Equilibrium(sut.Monitor):
    """C25: at every declared equilibrium, no agent has a better option."""

    def __init__(self, ctx, limit=10 ** 9):
        self.ctx, self.declared = ctx, 0
        self.left = limit

    def step_begin(self, m):
        self.V = view(m)

    def step_end(self, m):
        n = len(m.equilibrium_steps)
        if n == self.declared:
            return
        self.declared = n
        self.ctx.count("equilibria")
        self.ctx.count("equilibria_%s" % self.V["order"])
        for aid, a in self.V["agents"].items():
            if a["strategy"] is None:
                continue
            plan = ref.Planner(self.V, aid)
            if ref.close_pairs(self.V, plan.myopic):
                self.ctx.count("ambiguous")
                continue
            du = plan.expected_delegation_utility(plan.allocation())
            op = plan.operator_option()
            aug = plan.augmented_current()
            if plan.ambiguous:
                self.ctx.count("ambiguous")
                continue
            self.ctx.count("agents_at_equilibrium")
            if a["strategy"]["owned"]:
                self.ctx.count("operators_at_equilibrium")
            e = eps(max(abs(aug), abs(du), abs(op["hi"])))
            self.ctx.check(max(du, op["lo"]) <= aug + e, "an equilibrium was declared although an agent can do better",
                           agent=a, current_plus_threshold=aug, delegate=du, operate=[op["lo"], op["hi"]],
                           round=self.V["steps"], phase=self.V["phase"])


class Frame(sut.Monitor):
    """C24: what a move may change. The state is compared before and after each application of a move."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ever = {}       # id -> owner, of every pool that was ever live
        self.closed = set()

    def attach(self, m):
        self.remember(view(m))

    def remember(self, V):
        for i, p in V["pools"].items():
            self.ctx.check(i not in self.closed, "a pool that had been closed is back", pool=p)
            self.ctx.check(self.ever.setdefault(i, p["owner"]) == p["owner"], "a pool changed hands", pool=p)
        self.closed |= set(self.ever) - set(V["pools"])

    def step_end(self, m):
        self.remember(view(m))

    def advance_begin(self, m, a):
        self.plan = staged(a)
        if self.plan is not None:
            self.V = view(m)
            self.drafts = {b.unique_id: staged(b) for b in m.schedule.agents}

    def advance_end(self, m, a):
        if self.plan is None:
            return
        c, V, W, me, plan = self.ctx, self.V, view(m), a.unique_id, self.plan
        where = "round %d, agent %d" % (V["steps"], me)
        planned = {p["id"]: p for p in plan["owned"]}
        had = set(V["agents"][me]["strategy"]["owned"])
        c.count("moves")
        closed, opened, kept = had - set(planned), set(planned) - had, had & set(planned)
        c.count("pools_closed", len(closed))
        c.count("pools_opened", len(opened))
        c.count("pools_kept", len(kept))
        c.check(set(W["pools"]) == (set(V["pools"]) - closed) | opened, "a move opened or closed other pools than those of the "
                "agent's new strategy", where=where, before=sorted(V["pools"]), after=sorted(W["pools"]), plan=sorted(planned))
        released = set(closed)
        for i in opened & set(W["pools"]):
            p = W["pools"][i]
            c.check(i not in self.ever, "a new pool has the id of an earlier one", pool=p, where=where)
            c.check(p["owner"] == me and p["stake"] == p["pledge"] and not p["delegators"],
                    "a new pool does not start with its pledge alone", pool=p, where=where)
        for i in (opened | kept) & set(W["pools"]):
            p, q = W["pools"][i], planned[i]
            c.check(all(p[f] == q[f] for f in ("owner", "pledge", "cost", "margin", "private")),
                    "a pool does not have the terms that its operator decided on", pool=p, decided=q, where=where)
        for i, p in V["pools"].items():
            q = W["pools"].get(i)
            if q is None:
                continue
            before = {x: y for x, y in p["delegators"].items() if x != me}
            after = {x: y for x, y in q["delegators"].items() if x != me}
            if i in kept and q["private"]:
                c.check(not q["delegators"], "a pool that became private keeps delegations", pool=q, where=where)
                released.add(i)
                if before:
                    c.count("pools_made_private_with_delegators")
            else:
                c.check(before == after, "a move changed delegations of other agents", before=p, after=q, where=where)
            if i not in kept:
                c.check(all(p[f] == q[f] for f in ("owner", "pledge", "cost", "margin", "private")),
                        "a move changed the pool of another agent", before=p, after=q, where=where)
                if me not in p["delegators"] and me not in q["delegators"]:
                    c.check(abs(p["stake"] - q["stake"]) <= 1e-12, "a move changed the stake of a pool it has nothing to do with",
                            before=p, after=q, where=where)
        for i, b in V["agents"].items():
            d = W["agents"][i]
            c.check((b["stake"], b["cost"], b["kind"]) == (d["stake"], d["cost"], d["kind"]), "a move changed an agent's "
                    "attributes", before=b, after=d, where=where)
            if b["strategy"] is None:
                c.check(d["strategy"] is None, "an abstainer became active", after=d, where=where)
                continue
            if i == me:
                want = {x: y for x, y in plan["alloc"].items() if x not in released}
                c.check(d["strategy"]["alloc"] == want, "an agent's delegations are not those they decided on",
                        decided=want, after=d, where=where)
                c.check(set(d["strategy"]["owned"]) == set(planned), "an agent's pools are not those they decided on",
                        decided=sorted(planned), after=d, where=where)
            else:
                want = {x: y for x, y in b["strategy"]["alloc"].items() if x not in released}
                if want != b["strategy"]["alloc"]:
                    c.count("delegations_released")
                c.check(d["strategy"]["alloc"] == want, "a move changed the delegations of another agent, or did not release "
                        "those to a closed pool", before=b, after=d, released=sorted(released), where=where)
                c.check(sorted(d["strategy"]["owned"]) == sorted(b["strategy"]["owned"]), "a move changed the pools of another agent",
                        before=b, after=d, where=where)
        if "simultaneous" in V["order"]:
            for b in m.schedule.agents:
                old, new = self.drafts[b.unique_id], staged(b)
                if b is a or old is None:
                    continue
                c.count("pending_moves_checked")
                if not c.check(new is not None, "a move cancelled the pending move of another agent", where=where):
                    continue
                want = {x: y for x, y in old["alloc"].items() if x not in released}
                c.check(new["alloc"] == want and [p["id"] for p in new["owned"]] == [p["id"] for p in old["owned"]],
                        "a move changed the pending move of another agent (other than dropping released pools)", before=old,
                        after=new, released=sorted(released), where=where)
        self.remember(W)
        self.ctx.seen("%s %d closed %d opened %d kept %d released" % (V["order"], min(len(closed), 3), min(len(opened), 3),
                                                                     min(len(kept), 3), min(len(released), 3)))


def state(m):
    """The complete observable state (random generator and numbering included)."""
    V = view(m)
    V["rankings"] = [[None if p is None else p.id for p in r] for r in (m.pool_rankings, m.pool_rankings_myopic)]
    return V


class Pure(sut.Monitor):
    """C23: collecting results, and deciding without moving, change nothing."""

    def __init__(self, ctx):
        self.ctx = ctx

    def same(self, V, W, exact, msg, **info):
        c = self.ctx
        if exact:
            c.check(V == W, msg, **info)
            return
        ok = sorted(V["pools"]) == sorted(W["pools"]) and V["agents"] == W["agents"] and \
            all(sorted(filter(None, x)) == sorted(filter(None, y)) and len(x) == len(y)
                for x, y in zip(V["rankings"], W["rankings"]))
        ok = ok and V["rankings"][0] == W["rankings"][0]
        for i, p in V["pools"].items():
            q = W["pools"].get(i)
            if not ok or q is None:
                break
            ok = abs(p["stake"] - q["stake"]) <= 1e-12 and dict(p, stake=0) == dict(q, stake=0)
        ok = ok and {x: V[x] for x in V if x not in ("pools", "agents", "rankings")} == \
            {x: W[x] for x in W if x not in ("pools", "agents", "rankings")}
        if not ok:
            diff = [x for x in V if V[x] != W[x]]
            c.violation(msg, differs=diff, before={x: V[x] for x in diff[:2]}, after={x: W[x] for x in diff[:2]}, **info)

    def collect_begin(self, m):
        self.S, self.rng, self.seq = state(m), m.random.getstate(), getattr(m, "id_seq", None)
        self.drafts = {a.unique_id: staged(a) for a in m.schedule.agents}
        self.objects = list(m.pools.values())
        if len(self.objects) > 12:
            self.ctx.count("collections_with_many_pools")
        # (the status is printed just before)
        self.same(self.B, self.S, True, "printing the status changed the state of the system", round=self.S["steps"])
        self.ctx.check(len(self.objects) == len(self.Bobjects) and all(p is q for p, q in zip(self.Bobjects, self.objects)),
                       "printing the status replaced or reordered the pools", round=self.S["steps"])

    def collect_end(self, m):
        self.ctx.check([id(p) for p in m.pools.values()] == [id(p) for p in self.objects],
                       "collecting metrics replaced or reordered the pools", round=self.S["steps"])
        self.ctx.count("collections")
        self.same(self.S, state(m), True, "collecting metrics changed the state of the system", round=self.S["steps"])
        self.ctx.check(self.rng == m.random.getstate() and self.seq == getattr(m, "id_seq", None),
                       "collecting metrics used up random numbers or pool ids", round=self.S["steps"])

    def step_begin(self, m):
        self.B, self.Brng, self.Bobjects = state(m), m.random.getstate(), list(m.pools.values())

    def step_end(self, m):
        if m.schedule.steps == self.B["steps"]:
            self.ctx.count("exports")
            self.same(self.B, state(m), True, "writing the results changed the state of the system")

    def agent_step_begin(self, m, a):
        self.seqn = getattr(self, "seqn", 0) + 1
        self.D = None
        if self.seqn % 4 and len(m.schedule.agents) > 45:
            return
        self.D, self.Drng, self.strategy = state(m), m.random.getstate(), a.strategy

    def agent_step_end(self, m, a):
        if self.D is None:
            return
        pending = "simultaneous" in self.D["order"]
        if not pending and a.strategy is not self.strategy:
            self.ctx.count("moves")
            return
        self.ctx.count("decisions_pending" if pending and staged(a) is not None else "decisions_to_stay")
        if self.D["pools"]:
            self.ctx.count("decisions_with_pools")
        self.ctx.check(a.strategy is self.strategy or not pending, "a pending decision already took effect", agent=a.unique_id)
        self.same(self.D, state(m), False, "a decision that has no effect (yet) changed the state of the system",
                  round=self.D["steps"], agent=a.unique_id, pending=pending)
        self.ctx.check(self.Drng == m.random.getstate(), "a decision used up random numbers", round=self.D["steps"],
                       agent=a.unique_id)


class Scramble(sut.Monitor):
    """Not an oracle but a perturbation: in some of the early rounds, before anyone is activated, a few agents without pools
    move their whole stake to randomly chosen public pools of others (through the engine's own way to apply a move). It leads
    to valid states that the agents would hardly reach by themselves: bad choices, over-saturated and forgotten pools,
    scattered stakes. In some runs, it is the margins of most pools that are raised to 1 now and then. Comes first in the list
    of monitors."""

    def __init__(self, ctx, spec):
        self.ctx, self.spec = ctx, spec
        self.r = random.Random(spec["seed"])

    def step_begin(self, m):
        if m.schedule.steps >= self.spec["rounds"] or self.r.random() > self.spec["rate"]:
            return
        V = view(m)
        public = [p for p in V["pools"].values() if not p["private"]]
        if self.spec.get("spoil") and public and self.r.random() < 0.5:   # most pools leave nothing to their delegators
            for p in self.r.sample(public, max(1, len(public) - self.r.choice([0, 1, 1, 2]))):
                pool = m.pools[p["id"]]
                m.pool_rankings.remove(pool)
                m.pool_rankings_myopic.remove(pool)
                pool.margin = self.r.choice([1, 1, 1, 0.999])
                m.pool_rankings.add(pool)
                m.pool_rankings_myopic.add(pool)
                self.ctx.count("pools_spoiled")
            return
        movers = [a for a in m.schedule.agents if a.strategy is not None and a.stake > 1e-9 and not V["agents"][a.unique_id]["strategy"]["owned"]]
        if not public or not movers:
            return
        few = self.r.sample(public, min(len(public), self.r.choice([1, 2, 5])))  # a crowd over-saturates the pools it picks
        for a in self.r.sample(movers, max(1, int(len(movers) * self.r.choice([0.1, 0.3, 1])))):
            pools = [p["id"] for p in self.r.choice([few, public]) if p["owner"] != a.unique_id]
            pools = self.r.sample(pools, min(len(pools), self.r.choice([1, 1, 2, 4])))
            if not pools:
                continue
            weights = [self.r.random() + 0.01 for _ in pools]
            if self.r.random() < 0.2:   # almost nothing for one of them
                weights[0] *= 10.0 ** -self.r.choice([6, 9, 11])
            stake = a.stake * self.r.choice([1, 1, 0.5])
            # never so little that the engine takes it for nothing
            a.new_strategy = sut.strategy_mod.Strategy(
                stake_allocations={i: max(1e-13, stake * w / sum(weights) * (1 - 1e-3)) for i, w in zip(pools, weights)})
            a.advance()
            self.ctx.count("moves_scrambled")


class Applied(sut.Monitor):
    """When agents decide together, what an agent decided is what is applied at the end, except for delegations to pools that
    closed or became private in between."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.pending = {}

    def agent_step_end(self, m, a):
        if "simultaneous" in m.agent_activation_order:
            plan = staged(a)
            self.pending[a.unique_id] = {"plan": plan, "lost": set()}

    def advance_begin(self, m, a):
        self.before = strategy_view(a.strategy)

    def advance_end(self, m, a):
        for entry in self.pending.values():
            if entry["plan"] is not None:
                entry["lost"] |= {i for i in entry["plan"]["alloc"] if i not in m.pools or m.pools[i].is_private}
        entry = self.pending.pop(a.unique_id, None)
        if entry is None:
            return
        plan, now = entry["plan"], strategy_view(a.strategy)
        where = {"round": m.schedule.steps, "agent": a.unique_id}
        if plan is None:
            self.ctx.check(now == self.before, "the strategy of an agent who decided to stay was changed in their own turn",
                           before=self.before, after=now, **where)
            return
        self.ctx.count("joint_moves_applied")
        want = {i: x for i, x in plan["alloc"].items() if i not in entry["lost"]}
        if len(want) < len(plan["alloc"]):
            self.ctx.count("joint_moves_cut")
            if not want:
                self.ctx.count("joint_moves_cut_entirely")
        self.ctx.check(now is not None and now["alloc"] == want and sorted(now["owned"]) == sorted(p["id"] for p in plan["owned"]),
                       "what an agent decided is not what was applied", decided=plan["alloc"], after=now, **where)
