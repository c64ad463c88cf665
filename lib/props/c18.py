import csv
import json
import math
import os

import scen
from common import digest, rng_for

csv.field_size_limit(10 ** 9)
RULE = ("Batches over random lists of parameter values (numbers of processes, iterations, records per run), through the function and through "
        "the program. Each run is compared with the same simulation executed alone. Non-trivial: a distinct batch with at least two runs, "
        "some of which ended with pools.")
REQUIRE = {"batches": 40, "runs": 250, "standalone_runs": 120, "programs": 4, "parallel_batches": 15, "with_iterations": 8,
           "two_variable_params": 15, "multi_record": 4}
LISTS = {
    "n": [5, 8, 10, 12, 15, 20], "k": [1, 2, 3, 4, 5, 8], "a0": [0.0, 0.1, 0.3, 0.5, 1.0], "cost_min": [1e-5, 1e-4, 1e-3],
    "cost_max": [2e-3, 5e-3, 1e-2], "extra_pool_cost_fraction": [0.0, 0.2, 0.4, 0.8, 1.5], "pareto_param": [1.2, 2.0, 3.0],
    "inactive_stake_fraction": [0.0, 0.1, 0.5], "relative_utility_threshold": [0.0, 0.1, 0.5],
    "absolute_utility_threshold": [0.0, 1e-9, 1e-6],
}
ONLY_API = {"agent_activation_order": ["random", "sequential", "simultaneous", "semisimultaneous"], "reward_scheme": [0, 1, 2, 3, 4],
            "iterations_after_convergence": [1, 3, 6], "max_iterations": [2, 5, 10, 30], "stake_distr_source": ["Pareto", "flat"],
            "inactive_stake_fraction_known": [True, False]}


def batch(r, program):
    fixed = {"n": r.choice([6, 10, 15]), "k": r.choice([2, 3, 5]), "a0": 0.3, "cost_min": 1e-3, "cost_max": 5e-3, "max_iterations": r.choice([3, 10, 30]),
             "iterations_after_convergence": r.choice([1, 3, 5]), "extra_pool_cost_fraction": 0.4, "pareto_param": 2.0,
             "stake_distr_source": r.choice(["Pareto", "Pareto", "flat"]), "reward_scheme": r.randrange(5), "inactive_stake_fraction": 0,
             "inactive_stake_fraction_known": r.random() < 0.5, "relative_utility_threshold": 0, "absolute_utility_threshold": 1e-9}
    names = r.sample(sorted(LISTS) + ([] if program else sorted(ONLY_API)), r.choice([1, 1, 2, 2, 3]))
    variable = {}
    for name in names:
        pool = {**LISTS, **ONLY_API}[name]
        variable[name] = r.sample(pool, r.randrange(1 if len(names) > 1 else 2, min(len(pool), 3 if len(names) > 1 else 4) + 1))
    for name in names:
        if r.random() < 0.3:  # values with many digits
            variable[name] = [x * r.uniform(0.8, 1) if isinstance(x, float) and x not in (0.0, 1e-9) else x for x in variable[name]]
    if r.random() < 0.1:
        name = r.choice(names)
        variable[name] = variable[name] + [variable[name][0]]   # a value that is given twice
    params = dict(fixed, **variable)
    schemes = params["reward_scheme"] if isinstance(params["reward_scheme"], list) else [params["reward_scheme"]]
    if 4 in schemes and isinstance(params["a0"], list):
        params["a0"] = [x or 0.2 for x in params["a0"]]
    if not program and r.random() < 0.3:
        params.pop("pareto_param", None) if "pareto_param" not in variable else None
        params["generate_graphs"] = False
    elif not program:
        params["generate_graphs"] = r.random() < 0.03
    # keep the order of the parameters arbitrary
    items = list(params.items())
    r.shuffle(items)
    return dict(items)


def jobs(r, tier):
    out = []
    for i in range(150 if tier == "quick" else 3000):
        out.append({"kind": "function", "params": list(batch(r, False).items()), "procs": r.choice([1, 1, 1, 2, 3, None]), "iterations": r.choice([1, 1, 1, 2, 3]),
                    "period": r.choice([-1, -1, -1, -1, 1, 2, 3]), "seed": r.choice([0, 1, r.randrange(10 ** 6)]), "id": r.choice(["b", "batch-run", "my batch"]),
                    "earlier": r.choice([0, 0, 1, 4]), "pick": r.randrange(10 ** 9)})
    for i in range(8 if tier == "quick" else 150):
        out.insert(i * 5, {"kind": "program", "params": list(batch(r, True).items()), "seed": r.choice([None, 3, r.randrange(10 ** 6)]),
                           "id": r.choice([None, "nightly"]), "earlier": r.choice([0, 1]), "pick": r.randrange(10 ** 9)})
    return out


def combinations(params):
    out = [{}]
    for name, v in params.items():
        out = [dict(c, **{name: x}) for c in out for x in (v if isinstance(v, list) else [v])]
    return out


def read_csv(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def same(text, v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return text == str(v)
    try:
        x = float(text)
    except ValueError:
        return False
    return x == float(v) or (math.isnan(x) and math.isnan(v))


def ident(c):
    """What tells the runs of a batch apart, as text."""
    return json.dumps({k: (v if isinstance(v, (str, bool)) or v is None else float(v)) for k, v in c.items()}, sort_keys=True)


def run(job, ctx):
    import sut
    r = rng_for("c18", job["pick"])
    params = dict(job["params"])
    for i in range(job["earlier"]):
        sut.make({"n": 3, "k": 2, "seed": 1, "execution_id": "earlier"})
    results = None
    if job["kind"] == "function":
        import custom_batchrunner
        iters = job["iterations"]
        given = {k: (list(v) if isinstance(v, list) else v) for k, v in params.items()}
        top = max(params["max_iterations"]) if isinstance(params["max_iterations"], list) else params["max_iterations"]
        with sut.quiet():
            results, path = custom_batchrunner.custom_batch_run(
                sut.sim.Simulation, parameters=given, batch_run_id=job["id"], number_processes=job["procs"], iterations=iters,
                data_collection_period=job["period"], max_steps=top, display_progress=False, initial_seed=job["seed"])
        path, name, seeds = str(path), job["id"], [job["seed"] + i for i in range(iters)]
        if job["procs"] != 1:
            ctx.count("parallel_batches")
        if iters > 1:
            ctx.count("with_iterations")
    else:
        import cli
        args = []
        for k, v in params.items():
            if isinstance(v, bool):
                args.append("--%s%s" % ("" if v else "no-", k))
            else:
                args += ["--" + k] + [str(x) for x in (v if isinstance(v, list) else [v])]
        if job["seed"] is not None:
            args += ["--seed", str(job["seed"])]
        if job["id"]:
            args += ["--execution_id", job["id"]]
        code, out, err = cli.run("batch-run.py", args, timeout=400)
        if not ctx.check(code == 0, "the batch program failed on valid arguments", argv=args, err=err[-1500:]):
            return
        name = job["id"] or "batch-run"
        found = [d for d in os.listdir("output") if d.endswith("-" + name)]
        if not ctx.check(len(found) == 1, "the batch program did not make one folder with its name", found=os.listdir("output")):
            return
        path, seeds = os.path.abspath(os.path.join("output", found[0])), [job["seed"]]
        iters = 1
        ctx.count("programs")
    base = os.path.basename(path)
    ctx.check(base == "%d-%s" % (job["earlier"] + 1, name) and os.path.realpath(os.path.dirname(path)) == os.path.realpath("output"),
              "the folder of the batch is not named after its serial number and identifier", got=path)
    variable = [k for k, v in params.items() if isinstance(v, list)]
    if len(variable) > 1:
        ctx.count("two_variable_params")
    ctx.count("batches")
    # 1. the folders: each combination exactly once, in one of its own
    folders = sorted(d for d in os.listdir(path) if os.path.isdir(os.path.join(path, d)) and d != "figures")
    done = {}
    for d in folders:
        with open(os.path.join(path, d, "args.json")) as f:
            done[d] = json.load(f)
    if seeds == [None]:
        used = {a["seed"] for a in done.values()}
        ctx.check(len(used) == 1 and isinstance(next(iter(used)), int), "a batch without a seed did not use one seed for all of its runs", seeds=list(used))
        seeds = sorted(used)[:1]
    want = [dict(c, seed=s) for c in combinations(params) for s in seeds]
    got = [{k: a.get(k) for k in want[0]} for a in done.values()]
    a, b = sorted(map(ident, got)), sorted(map(ident, want))
    if not ctx.check(a == b, "a batch did not run each combination of the parameter values exactly once", missing=[x for x in b if x not in a][:3],
                     not_asked_for=[x for x in a if x not in b][:3], runs=len(a), expected=len(b)):
        return
    ctx.count("runs", len(want))
    defaults = {"agent_profile_distr": [1, 0, 0]}
    for d, args in done.items():
        for k, v in defaults.items():
            ctx.check(args.get(k) == v, "a run of a batch has an argument that nobody asked for", argument=k, got=args.get(k))
    # 2. the aggregate results
    table = read_csv(os.path.join(path, "aggregate-results-%s.csv" % base))
    head, rows = table[0], [dict(zip(table[0], x)) for x in table[1:]]
    if not ctx.check(all(len(x) == len(head) for x in table) and len(rows) == len(want), "the aggregate results do not have one row per run",
                     rows=len(rows), runs=len(want), head=head):
        return
    pools = 0
    unused = list(rows)
    last_of = {}
    for d, args in done.items():
        metrics = read_csv(os.path.join(path, d, "metrics.csv")) if os.path.exists(os.path.join(path, d, "metrics.csv")) else None
        if not ctx.check(metrics is not None, "a run of a batch has no results", folder=d, files=os.listdir(os.path.join(path, d))):
            continue
        last = dict(zip(metrics[0][1:], metrics[-1][1:]))
        last_of[d] = last
        mine = [x for x in unused if all(same(x[k], args[k]) for k in variable + ["seed"] if k in head)]
        ctx.check(all(k in head for k in variable), "the aggregate results do not show the values of a parameter that varies", head=head, variable=variable)
        if not ctx.check(bool(mine), "a run has no row in the aggregate results", folder=d):
            continue
        row = next((x for x in mine if x.get("execution_id", "") and d.endswith(x["execution_id"]) and d.startswith(x.get("seq_id", ""))), mine[0])
        unused.remove(row)
        wrong = {k: (v, row.get(k)) for k, v in last.items() if k not in row or row[k] != v and not same(row[k], float(v))}
        ctx.check(not wrong, "a row of the aggregate results does not have the final metrics of its run", folder=d, wrong=wrong)
        ctx.check(row.get("Step") == str(len(metrics) - 2), "a row of the aggregate results has another round than the last one", folder=d,
                  got=row.get("Step"), rounds=len(metrics) - 1)
        with open(os.path.join(path, d, "final-state-descriptors.json")) as f:
            final = json.load(f)
        if "Pool count" in row:
            ctx.check(float(row["Pool count"]) == final["Pool count"], "a row of the aggregate results does not describe the final state", folder=d,
                      got=row["Pool count"], expected=final["Pool count"])
        pools += final["Pool count"] > 0
    # 3. the list of results that the function returns
    if results is not None:
        records(ctx, job, results, params, seeds, variable, done, path, last_of)
    # 4. the same simulation alone
    sample = r.sample(sorted(done), min(len(done), 4))
    home = os.getcwd()
    for d in sample:
        os.makedirs("alone-" + digest(d), exist_ok=True)
        os.chdir("alone-" + digest(d))
        args = {k: v for k, v in done[d].items() if k in params or k == "seed"}
        m = sut.run(dict(args, execution_id="alone", generate_graphs=False))
        os.chdir(home)
        ctx.count("standalone_runs")
        mv = m.datacollector.model_vars
        wrong = {k: (v[-1], last_of.get(d, {}).get(k)) for k, v in mv.items() if not same(last_of.get(d, {}).get(k, ""), v[-1])}
        ctx.check(not wrong, "a run of a batch gives other results than the same simulation alone", folder=d, wrong=str(wrong)[:600])
        for file in ("final-state-descriptors.json", "initial-state-descriptors.json", "metrics.csv"):
            with open(m.directory / file) as f, open(os.path.join(path, d, file)) as g:
                ctx.check(f.read() == g.read(), "a run of a batch leaves other files than the same simulation alone", folder=d, file=file)
    if job["kind"] == "program":
        figures = os.listdir(os.path.join(path, "figures")) if os.path.isdir(os.path.join(path, "figures")) else []
        for k in [k for k in variable if len(params[k]) > 1]:
            ctx.check(any("-per-%s.png" % k in x for x in figures), "there is no graph over a parameter that varies", parameter=k, figures=figures)
    if len(want) > 1 and pools:
        ctx.seen(digest(job))
    ctx.sample({"runs": len(want), "variable": {k: params[k] for k in variable}, "with_pools": pools, "processes": job.get("procs")})


def records(ctx, job, results, params, seeds, variable, done, path, last_of):
    n = len(done)
    period = job["period"]
    ids = {}
    for x in results:
        ids.setdefault(x["RunId"], []).append(x)
    ctx.check(sorted(ids) == list(range(n)), "the returned records do not number the runs", got=sorted(ids)[:20], runs=n)
    a = sorted(ident({k: x[0].get(k) for k in list(params) + ["seed"]}) for x in ids.values())
    b = sorted(ident(dict(c, seed=s)) for c in combinations(params) for s in seeds)
    ctx.check(a == b, "the returned records are not those of each combination once", missing=[x for x in b if x not in a][:3], runs=len(a))
    ctx.check(all(y["iteration"] == y["seed"] - seeds[0] for y in results), "the returned records do not number the iterations of a combination",
              got=sorted({(y["seed"], y["iteration"]) for y in results})[:10], seeds=seeds)
    if period > 0:
        ctx.count("multi_record")
    for x in ids.values():
        d = "%s-%s" % (x[0].get("seq_id"), x[0].get("execution_id"))
        if d not in last_of:
            continue
        metrics = read_csv(os.path.join(path, d, "metrics.csv"))
        rounds = len(metrics) - 1
        want = [rounds - 1] if period < 0 else sorted(set(range(0, rounds, period)) | {rounds - 1})
        ctx.check([y["Step"] for y in x] == want, "the returned records are not those of the requested rounds and the last one",
                  got=[y["Step"] for y in x], expected=want)
        for y in x:
            if 0 <= y["Step"] < rounds:
                ref = dict(zip(metrics[0][1:], metrics[1 + y["Step"]][1:]))
                wrong = {k: (v, y.get(k)) for k, v in ref.items() if k not in y or not same(v, y[k])}
                ctx.check(not wrong, "a returned record has other values than the run", folder=d, step=y["Step"], wrong=str(wrong)[:400])
