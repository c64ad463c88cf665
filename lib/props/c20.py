import json
import os
import runpy
import sys

import scen
from common import REPO, close, digest, rng_for

RULE = ("Command lines are generated from the documented domain of each option (valid, missing, boundary and invalid values, several spellings and "
        "orders) and given to main.py, in process with a recorder in place of the simulation, or for real. Non-trivial: a distinct command "
        "line with at least one option.")
REQUIRE = {"accepted": 1500, "refused": 2000, "options_left_out": 5000, "multi_phase": 300, "real_runs": 8, "real_refusals": 4, "broken_files": 4,
           "from_file": 2}

DEFAULTS = {"n": 1000, "k": 100, "a0": 0.3, "reward_scheme": 0, "agent_profile_distr": [1, 0, 0], "cost_min": 1e-5, "cost_max": 1e-4,
            "extra_pool_cost_fraction": 0.4, "agent_activation_order": "random", "absolute_utility_threshold": 1e-9,
            "relative_utility_threshold": 0, "stake_distr_source": "pareto", "pareto_param": 2, "inactive_stake_fraction": 0,
            "inactive_stake_fraction_known": False, "iterations_after_convergence": 10, "max_iterations": 2000, "generate_graphs": True,
            "seed": None, "execution_id": "", "input_from_file": False}
KIND = {"n": "positive", "k": "positive", "a0": "real", "reward_scheme": "scheme", "agent_profile_distr": "weights", "cost_min": "real",
        "cost_max": "real", "extra_pool_cost_fraction": "real", "agent_activation_order": "order", "absolute_utility_threshold": "real",
        "relative_utility_threshold": "real", "stake_distr_source": "source", "pareto_param": "positive real",
        "inactive_stake_fraction": "fraction", "inactive_stake_fraction_known": "flag", "iterations_after_convergence": "positive",
        "max_iterations": "positive", "metrics": "metrics", "generate_graphs": "flag", "seed": "natural", "execution_id": "text",
        "input_from_file": "flag"}
ORDERS = ["random", "sequential", "simultaneous", "semisimultaneous"]
PHASED = ("k", "a0")


def real(r, positive=False):
    x = r.choice([0.0, 1.0, 0.5, 1e-9, 1e-300, 3.7, 1e3, 1e6, r.random(), r.random() * 10 ** r.randrange(-6, 4)])
    if positive and x == 0:
        x = 0.25
    return x, r.choice([repr(x), repr(x), "%.17g" % x, ("%d" % x if x == int(x) and x < 1e15 else repr(x))])


def valid(r, kind):
    """(texts, expected value)"""
    if kind == "positive":
        x = r.choice([1, 2, 7, 10, 100, 1000, 5000, r.randrange(1, 10 ** 6)])
        return [str(x)], x
    if kind == "natural":
        x = r.choice([0, 1, 42, 10 ** 9, 2 ** 40, r.randrange(10 ** 7)])
        return [str(x)], x
    if kind in ("real", "positive real"):
        x, t = real(r, kind != "real")
        return [t], x
    if kind == "fraction":
        x = r.choice([0.0, 0.1, 0.5, 0.99, 0.999999, r.random()])
        return [repr(x)], x
    if kind == "scheme":
        x = r.randrange(5)
        return [str(x)], x
    if kind == "weights":
        xs = [real(r) for _ in range(3)]
        return [t for _, t in xs], [x for x, _ in xs]
    if kind in ("order", "source"):
        x = r.choice(ORDERS if kind == "order" else ["pareto", "flat", "file"])
        return [r.choice([x, x.capitalize(), x.upper()])], x
    if kind == "metrics":
        xs = [r.randrange(1, 31) for _ in range(r.choice([1, 2, 5, 9]))]
        return [str(x) for x in xs], xs
    if kind == "text":
        x = r.choice(["run", "my run", "a-b-c", "x.y", "été", "100", "temp"])
        return [x], x


BAD = {
    "positive": ["0", "-1", "-100", "1.5", "abc", "nan", "inf", "", "1e3", "10,5", "None", "0.0"],
    "natural": ["-1", "1.5", "abc", "nan", "", "-42", "1e3"],
    "real": ["-0.1", "-1", "nan", "inf", "-inf", "abc", "", "1e999", "0,3", "-1e-12", "None", "infinity", "NaN"],
    "positive real": ["0", "0.0", "-0.1", "nan", "inf", "abc", "", "1e999", "-inf", "-2"],
    "fraction": ["-0.1", "1.1", "2", "nan", "inf", "abc", "", "-1e-9", "1.0000001", "100", "1", "1.0"],
    "scheme": ["5", "-1", "99", "1.0", "abc", "", "cardano"],
    "order": ["foo", "", "randomly", "0", "semi", "rand"],
    "source": ["normal", "", "0", "uniform", "csv", "paretto"],
    "metrics": ["0", "31", "-1", "abc", "1.5", "", "1000"],
    "weights": ["-1", "nan", "inf", "abc", "", "-0.5"],
}


def jobs(r, tier):
    out = []
    for i in range(48 if tier == "quick" else 1600):
        out.append({"kind": "parse", "count": 100, "seed": r.randrange(10 ** 9)})
    for i in range(30 if tier == "quick" else 300):
        out.insert(r.randrange(len(out)) if i > 8 else i, {"kind": "real", "what": ["run", "bad", "file", "run", "broken"][i % 5],
                                                             "seed": r.randrange(10 ** 9)})
    return out


def spell(r, name, texts):
    if len(texts) == 1 and (r.random() < 0.3 or texts[0][:1] == "-"):
        return ["--%s=%s" % (name, texts[0])]
    return ["--" + name] + texts


def command(r, options):
    """A valid command line and the arguments that it stands for."""
    names = r.sample(sorted(KIND), options)
    if "input_from_file" in names and r.random() < 0.7:
        names.remove("input_from_file")
    parts, want, phases = [], {}, 0
    for name in names:
        kind = KIND[name]
        if kind == "flag":
            x = r.random() < 0.5
            parts.append(["--%s%s" % ("" if x else "no-", name)])
            want[name] = x
            continue
        if name in PHASED and r.random() < 0.5:
            vs = [valid(r, kind) for _ in range(r.choice([1, 2, 3, 5]))]
            texts, x = [t for v in vs for t in v[0]], [v[1] for v in vs]
            phases += len(vs) > 1
        else:
            texts, x = valid(r, kind)
        want[name] = x
        parts.append(spell(r, name, texts))
    return parts, want, phases


def spoil(r, parts):
    """Make one option of a command line invalid."""
    parts = [p for p in parts]
    name = r.choice([n for n in KIND if KIND[n] not in ("flag", "text")])
    kind = KIND[name]
    parts = [p for p in parts if p[0].split("=")[0] not in ("--" + name, "--no-" + name)]
    how = r.random()
    if how < 0.1:
        parts.append(r.choice([["--unknown", "3"], ["--nn", "5"], ["--generate_graphs", "5"], ["--no-n"], ["--alpha=0.3"], ["--generate_graphs=maybe"], ["--no-profile_code", "extra"]]))
    elif how < 0.25 and kind not in ("metrics", "weights") and name not in PHASED:
        a, b = valid(r, kind), valid(r, kind)
        parts.append(["--" + name] + a[0] + b[0])   # more than one value
    elif how < 0.35:
        name = r.choice(["agent_profile_distr", "agent_profile_distr", "k", "a0", "metrics"])
        parts = [p for p in parts if p[0].split("=")[0] != "--" + name]
        count = r.choice([0, 1, 2, 4, 5]) if name == "agent_profile_distr" else 0
        parts.append(["--" + name] + ["1"] * count)
    else:
        bad = r.choice(BAD[kind])
        if kind == "weights":
            texts = valid(r, kind)[0]
            texts[r.randrange(3)] = bad
        elif name in PHASED or kind == "metrics":
            texts = [t for _ in range(r.randrange(3)) for t in valid(r, kind)[0]]
            texts.insert(r.randrange(len(texts) + 1), bad)
        else:
            texts = [bad]
        parts.append(spell(r, name, texts))
        if bad[:1] == "-" and len(texts) == 1 and r.random() < 0.5:
            parts[-1] = ["--" + name, bad]
    return parts


def flat(r, parts):
    parts = list(parts)
    r.shuffle(parts)
    return [a for p in parts for a in p]


class Ended(Exception):
    pass


def call(args):
    """main.py in this process with a recorder in place of the simulation: (recorded arguments or None, exit code, error output)."""
    import contextlib
    import inspect
    import io
    import sut
    seen = []
    names = inspect.signature(sut.sim.Simulation.__init__)

    class Recorder(sut.sim.Simulation):
        def __init__(self, *a, **kw):
            bound = names.bind(self, *a, **kw)
            bound.apply_defaults()
            seen.append({k: v for k, v in bound.arguments.items() if k != "self"})
            raise Ended()

    real_class, argv = sut.sim.Simulation, sys.argv
    err, code = io.StringIO(), 0
    sys.modules.pop("main", None)
    try:
        sut.sim.Simulation = Recorder
        sys.argv = ["main.py"] + args
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            runpy.run_path(os.path.join(REPO, "main.py"), run_name="__main__")
    except Ended:
        pass
    except SystemExit as e:
        code = e.code
    finally:
        sut.sim.Simulation, sys.argv = real_class, argv
    return seen, code, err.getvalue()


def equal(a, b):
    if isinstance(a, list) and len(a) == 1 and not isinstance(b, list):
        a = a[0]
    if isinstance(b, list) and len(b) == 1 and not isinstance(a, list):
        b = b[0]
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower()
    return type(a) is bool and type(b) is bool and a == b or (type(a) is not bool and type(b) is not bool and a == b)


def check_args(ctx, got, want, args, what):
    for name in KIND:
        if name in want:
            x = want[name]
            ok = got.get(name) == x if name == "execution_id" else equal(got.get(name), x)
            ctx.check(ok, "an option did not reach the simulation with its value (%s)" % what, option=name, got=got.get(name), given=x, argv=args)
        elif name in DEFAULTS:
            ctx.count("options_left_out")
            ctx.check(equal(got.get(name), DEFAULTS[name]), "an option that was not given does not have its documented default (%s)" % what,
                      option=name, got=got.get(name), documented=DEFAULTS[name], argv=args)


def run(job, ctx):
    r = rng_for("c20", job["seed"])
    if job["kind"] == "parse":
        parse(job, ctx, r)
    else:
        actual(job, ctx, r)


def parse(job, ctx, r):
    for i in range(job["count"]):
        parts, want, phases = command(r, r.choice([0, 1, 1, 2, 3, 5, 8, len(KIND)]))
        if r.random() < 0.45:
            args = flat(r, parts)
            seen, code, err = call(args)
            if ctx.check(len(seen) == 1, "a valid command line was refused", argv=args, code=code, err=err[-500:]):
                check_args(ctx, seen[0], want, args, "command line")
                ctx.count("accepted")
                if phases:
                    ctx.count("multi_phase")
            if i < 1:
                ctx.sample({"argv": args, "outcome": "accepted"})
        else:
            args = flat(r, spoil(r, parts))
            seen, code, err = call(args)
            ctx.check(not seen, "an invalid command line was accepted", argv=args)
            ctx.check(bool(seen) or (code == 2 and "usage" in err), "an invalid command line was not refused with a usage error", argv=args, code=code,
                      err=err[-300:])
            ctx.count("refused")
            if i < 2:
                ctx.sample({"argv": args, "outcome": "refused", "message": err[-150:]})
        ctx.check(not os.listdir("."), "parsing a command line left files", files=os.listdir("."))
        if args:
            ctx.seen(digest(args))
        if ctx.violations:
            return


def actual(job, ctx, r):
    """The real program."""
    import cli
    cfg = scen.cfg(r, "tiny", phases=0)
    cfg = {k: v for k, v in cfg.items() if not k.startswith("_")}
    cfg.update(max_iterations=r.choice([3, 20, 60]), generate_graphs=False, execution_id=r.choice(["", "my run"]), a0=cfg["a0"] or 0.3,
               metrics=r.sample([1, 2, 6, 9, 17, 18], 3))
    if r.random() < 0.4:
        cfg["k"] = [cfg["k"], cfg["k"] + 1]
    before = []
    if job["what"] == "file":
        path = "args.json"
        full = dict(cfg, seq_id=-1, parent_dir="")
        with open(path, "w") as f:
            json.dump(full, f)
        before = ["args.json"]
        args = ["--input_from_file"] + (["--n", "77", "--execution_id", "other", "--k", "9"] if r.random() < 0.6 else [])
    elif job["what"] == "broken":
        content = r.choice([None, None, "", "{\"n\": 5,", "n=5\nk=2\n", json.dumps(cfg)[:-1], json.dumps(cfg) + "}"])
        if content is not None:
            before = ["args.json"]
            with open("args.json", "w") as f:
                f.write(content)
        args = ["--input_from_file", "--max_iterations", "3", "--n", "5", "--k", "2"]
        args = args if r.random() < 0.7 else args[:1]
        code, out, err = cli.run("main.py", args)
        ctx.count("broken_files")
        ctx.check(code != 0 and sorted(os.listdir(".")) == before, "something was executed although there was no (valid) file to read the arguments from",
                  argv=args, content=content, code=code, err=err[-300:], files=os.listdir("."))
        ctx.seen("broken/" + digest([args, content]))
        return
    else:
        args = cli.argv(cfg)
        if job["what"] == "bad":
            bad = spoil(r, [])
            given = {b.split("=")[0] for b in bad[-1]}
            cut = {k: v for k, v in cfg.items() if "--" + k not in given}
            args = [x for p in bad for x in p] + cli.argv(cut)
        elif r.random() < 0.2:
            args += ["--profile_code"]
    code, out, err = cli.run("main.py", args)
    if job["what"] == "bad":
        ctx.count("real_refusals")
        ctx.check(code == 2 and "usage" in err, "an invalid command line was not refused with a usage error", argv=args, code=code, err=err[-400:])
        ctx.check(not os.listdir("."), "a command line that was refused left files", argv=args, files=os.listdir("."))
        ctx.seen("real/" + digest(args))
        return
    if not ctx.check(code == 0, "the program failed on valid arguments", argv=args, err=err[-1200:]):
        return
    ctx.count("from_file" if job["what"] == "file" else "real_runs")
    dirs = [d for d in os.listdir("output") if os.path.isdir("output/" + d)]
    if not ctx.check(len(dirs) == 1 and (not cfg["execution_id"] or dirs[0] == "1-" + cfg["execution_id"]), "the program did not leave one folder",
                     found=dirs, argv=args):
        return
    with open("output/%s/args.json" % dirs[0]) as f:
        got = json.load(f)
    for k, v in cfg.items():
        ctx.check(equal(got.get(k), v), "an option did not reach the simulation with its value (real run)", option=k, got=got.get(k), given=v, argv=args)
    with open("output/%s/final-state-descriptors.json" % dirs[0]) as f:
        final = json.load(f)
    ctx.check(("Reached equilibrium" in out) == (final["Equilibrium reached"] == "Yes"), "the program announces another end than the one reported",
              out=out[-400:], final=final)
    ctx.check(sorted(x for x in os.listdir(".") if x not in ("output", "sequence.dat")) == before, "the program left files elsewhere",
              files=os.listdir("."))
    ctx.seen("real/" + digest(args + [cfg]))
    ctx.sample({"argv": args, "pools": final["Pool count"]})
