import json
import os
import shutil

from common import digest, rng_for

RULE = ("Command lines of the batch program (one, several or no values per option, several spellings and orders; values of a wrong type, unknown "
        "choices and options) are run in process with a simulation that notes the arguments it gets. Non-trivial: a distinct command line with "
        "at least one option.")
REQUIRE = {"accepted": 60, "refused": 300, "runs": 250, "options_left_out": 500, "several_values": 60, "profiles": 15, "long": 20}
DEFAULTS = {"n": 1000, "a0": 0.3, "inactive_stake_fraction": 0, "inactive_stake_fraction_known": False, "pareto_param": 2, "cost_min": 1e-5,
            "cost_max": 1e-4, "extra_pool_cost_fraction": 0.4, "stake_distr_source": "pareto", "reward_scheme": 0, "relative_utility_threshold": 0,
            "absolute_utility_threshold": 1e-9, "iterations_after_convergence": 10, "max_iterations": 2000, "agent_profile_distr": [1, 0, 0],
            "agent_activation_order": "random", "input_from_file": False}
REALS = ["a0", "cost_min", "cost_max", "extra_pool_cost_fraction", "pareto_param", "inactive_stake_fraction", "relative_utility_threshold",
         "absolute_utility_threshold"]
INTS = ["n", "k", "max_iterations", "iterations_after_convergence", "seed", "reward_scheme"]
LISTS = ["n", "k"] + REALS


def jobs(r, tier):
    return [{"good": 3, "bad": 12, "seed": r.randrange(10 ** 9)} for _ in range(120 if tier == "quick" else 2000)]


def value(r, name):
    if name in ("n", "k", "max_iterations", "iterations_after_convergence"):
        return r.choice([1, 2, 5, 10, 100, r.randrange(1, 3000)])
    if name == "seed":
        return r.choice([0, 1, 42, r.randrange(10 ** 7)])
    if name == "reward_scheme":
        return r.randrange(5)
    if name == "inactive_stake_fraction":
        return r.choice([0.0, 0.1, 0.5, 0.99, r.random()])
    x = r.choice([0.0, 1.0, 0.5, 1e-9, 3.5, 1e-5, r.random(), r.random() * 10 ** r.randrange(-6, 3)])
    if r.random() < 0.25 and "fraction" not in name:
        x = x * 1000 + 1000
    return x if x or name != "pareto_param" else 0.75


def spell(name, texts, r):
    return ["--%s=%s" % (name, texts[0])] if len(texts) == 1 and r.random() < 0.4 else ["--" + name] + texts


def command(r, many):
    names = r.sample(LISTS + ["max_iterations", "iterations_after_convergence", "seed", "reward_scheme", "stake_distr_source", "execution_id",
                              "inactive_stake_fraction_known", "agent_profile_distr"], many)
    parts, want, combos = [], {}, 1
    for name in names:
        if name == "inactive_stake_fraction_known":
            want[name] = r.random() < 0.5
            parts.append(["--%s%s" % ("" if want[name] else "no-", name)])
        elif name == "stake_distr_source":
            want[name] = r.choice(["Pareto", "pareto", "flat", "Flat", "disparity"])
            parts.append(spell(name, [want[name]], r))
        elif name == "execution_id":
            want[name] = r.choice(["b", "my batch", "a-b-c"])
            parts.append(spell(name, [want[name]], r))
        elif name == "agent_profile_distr":
            want[name] = [r.choice([0, 1, 2.5, r.random()]) for _ in range(2)] + [r.choice([0, 1])]
            want[name][r.randrange(3)] += 1
            parts.append(["--" + name] + [repr(x) for x in want[name]])
        else:
            most = 3 if name in LISTS and r.random() < 0.5 else 1
            xs = []
            for _ in range(most if combos * most <= 12 else 1):
                x = value(r, name)
                if x not in xs:
                    xs.append(x)
            combos *= len(xs)
            want[name] = xs
            parts.append(spell(name, [repr(x) for x in xs], r))
    return parts, want, combos


def spoil(r, parts):
    how = r.random()
    name = r.choice(REALS + INTS)
    parts = [p for p in parts if p[0].split("=")[0] != "--" + name]
    good = [repr(value(r, name))] if name in LISTS and r.random() < 0.4 else []
    if how < 0.15:
        return parts + [r.choice([["--unknown", "3"], ["--nn", "5"], ["--kk=2"], ["--alpha", "0.3"], ["--no-k"], ["--inactive_stake_fraction_known=maybe"],
                                  ["--reward_scheme", "5"], ["--reward_scheme=-1"], ["--reward_scheme", "cardano"], ["--seed", "1", "2"],
                                  ["--max_iterations", "5", "6"], ["--reward_scheme", "0", "1"]])]
    bad = r.choice(["abc", "1,5", "None", "1.2.3", "--", "ten", "0x1F", "1e"] if name in REALS else ["abc", "1.5", "2.0", "nan", "1e3", "None", "3,4", "k"])
    texts = good + [bad]
    r.shuffle(texts)
    if bad == "--":
        texts = ["x"]
    return parts + [spell(name, texts, r)]


def flat(r, parts):
    parts = list(parts)
    r.shuffle(parts)
    return [a for p in parts for a in p]


def same(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a.lower() == b.lower()
    if isinstance(b, bool):
        return a is b
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return not isinstance(a, (bool, str, list, tuple)) and a == b


def key(c):
    return json.dumps({k: v if isinstance(v, (bool, str)) else float(v) for k, v in c.items()}, sort_keys=True)


def run(job, ctx):
    import batchprog
    r = rng_for("c26", job["seed"])
    for i in range(job["bad"]):
        parts, _, _ = command(r, r.choice([0, 1, 3]))
        args = flat(r, spoil(r, parts))
        got, code, err, _, error = batchprog.call(args, {})
        ctx.count("refused")
        ctx.check(not got and code == 2 and "usage" in err, "an invalid command line of the batch program was not refused with a usage error", argv=args,
                  code=code, err=err[-300:], runs=len(got))
        ctx.check(not os.listdir("."), "a command line that was refused left files", argv=args, files=os.listdir("."))
        if ctx.violations:
            return
    for i in range(job["good"]):
        one(ctx, r, batchprog, long=i == 0 and job["seed"] % 3 == 0)
        if ctx.violations:
            return


def one(ctx, r, batchprog, long):
    parts, want, combos = command(r, r.choice([0, 1, 2, 3, 4, 6, 9]))
    if long:   # many options and values with all their digits
        want = {name: [r.choice([r.random(), r.random() / 1e5])] for name in REALS if r.random() < 0.95}
        parts, combos = [spell(name, [repr(x[0])], r) for name, x in want.items()], 1
        ctx.count("long")
    args = flat(r, parts)
    small = {"n": 3, "k": 2, "a0": 0.3, "cost_min": 1e-3, "cost_max": 2e-3, "pareto_param": 2.0, "inactive_stake_fraction": 0, "max_iterations": 1,
             "iterations_after_convergence": 1, "generate_graphs": False, "agent_profile_distr": [1, 0, 0], "stake_distr_source": "flat",
             "extra_pool_cost_fraction": 0.4, "relative_utility_threshold": 0, "absolute_utility_threshold": 0, "metrics": [1]}
    got, code, err, _, error = batchprog.call(args, small)
    shutil.rmtree("output", ignore_errors=True)
    if not ctx.check(error is None and code == 0, "the batch program failed on a valid command line", argv=args, error=error, code=code, err=err[-300:]):
        return
    ctx.count("accepted")
    ctx.count("runs", len(got))
    lists = {k: v for k, v in want.items() if k in REALS + INTS}
    if "k" not in lists:
        lists["k"] = sorted({g["k"] for g in got})   # the default of this option is several values
        combos *= len(lists["k"])
    seeds = {g["seed"] for g in got}
    if "seed" not in lists:
        lists["seed"] = sorted(seeds)
        ctx.check(len(seeds) == 1 and all(type(s) is int and s >= 0 for s in seeds), "a batch without a seed does not have one seed for all of its runs",
                  argv=args, seeds=sorted(map(str, seeds)))
    expected = [{}]
    for name, vs in lists.items():
        expected = [dict(c, **{name: v}) for c in expected for v in vs]
    a, b = sorted(key({n: g[n] for n in lists}) for g in got), sorted(map(key, expected))
    ctx.check(a == b, "the runs of the batch program do not have the values of its options, once each", argv=args, missing=[x for x in b if x not in a][:3],
              not_asked_for=[x for x in a if x not in b][:3], runs=len(a), expected=len(b))
    if any(len(v) > 1 for v in want.values() if isinstance(v, list)):
        ctx.count("several_values")
    if "agent_profile_distr" in want:
        ctx.count("profiles")
    for g in got:
        for name in ("inactive_stake_fraction_known", "stake_distr_source", "agent_profile_distr"):
            if name in want:
                ctx.check(same(g[name], want[name]), "an option of the batch program did not reach its runs", option=name, got=g[name], given=want[name],
                          argv=args)
        for name, v in DEFAULTS.items():
            if name not in want:
                ctx.count("options_left_out")
                ctx.check(same(g[name], v) or name == "agent_profile_distr" and g[name] is None, "an option that was not given to the batch program does "
                          "not have its documented default", option=name, got=g[name], documented=v, argv=args)
        folder = os.path.basename(str(g["parent_dir"]))
        ctx.check(folder.endswith("-" + want.get("execution_id", "batch-run")), "the runs are not below the folder of the batch", got=folder, argv=args)
    if args:
        ctx.seen(digest(args))
    ctx.sample({"argv": args, "runs": len(got)})
