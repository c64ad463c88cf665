import csv
import json
import math
import os

from common import digest, rng_for

csv.field_size_limit(10 ** 9)
RULE = ("Batches of the batch program over one to three parameters, in process; every figure that it saves is taken apart (points, cells, labels) "
        "and compared with the aggregate results. Non-trivial: a distinct batch in which some metric takes several values.")
REQUIRE = {"batches": 50, "graphs": 350, "points": 2500, "heatmaps": 100, "cells": 800, "negative_values": 10, "painted": 2}
LISTS = {"n": [4, 5, 8, 10, 12], "k": [1, 2, 3, 4, 6], "a0": [0.0, 0.00003, 0.1, 0.3, 1.0], "cost_min": [1e-5, 3e-5, 1e-4, 1e-3], "cost_max": [2e-3, 5e-3, 1e-2, 0.3],
         "extra_pool_cost_fraction": [0.0, 0.2, 0.4, 1.5], "pareto_param": [1.2, 2.0, 3.0], "inactive_stake_fraction": [0.0, 0.1, 0.5],
         "relative_utility_threshold": [0.0, 0.1, 0.5], "absolute_utility_threshold": [0.0, 1e-9, 1e-6]}
DEAR = {"cost_min": [1e-5, 0.3, 0.5], "cost_max": [0.6, 0.8, 5.0], "n": [4, 5, 8], "k": [1, 2, 3]}
NUMBERS = [i for i in range(1, 31) if i not in (11, 21, 26, 27)]


def jobs(r, tier):
    out = []
    for i in range(130 if tier == "quick" else 2500):
        dear = r.random() < 0.35   # no pools (and negative Gini coefficients) in some or all runs
        names = r.sample(sorted(DEAR) * dear or sorted(LISTS), r.choice([1, 2])) if dear and r.random() < 0.7 else r.sample(sorted(LISTS), r.choice([0, 1, 1, 2, 2, 2, 2, 3]))
        lists = {}
        for name in names:
            vs = r.sample(LISTS[name] if not dear or name not in DEAR else DEAR[name], 2 if dear else r.randrange(2, 4))
            if r.random() < 0.08:
                vs = vs + [r.choice(vs)]
            lists[name] = vs
        single = {x: [r.choice(LISTS[x])] for x in r.sample(["n", "k", "a0"], 2) if x not in lists}
        out.append({"lists": list(lists.items()), "single": single, "metrics": sorted(set(r.sample(NUMBERS, r.choice([1, 3, 5])) + [r.choice([22, 23])] * dear)), "seed": r.randrange(10 ** 6),
                    "dear": dear, "iters": r.choice([1, 2, 10]), "paint": i % 12 == 1, "id": r.choice([None, "b", "my batch"]), "shuffle": r.random() < 0.5})
    return out


def num(text):
    return float(text)


def run(job, ctx):
    import batchprog
    lists = dict(job["lists"])
    args = []
    for name, vs in list(lists.items()) + list(job["single"].items()):
        args += ["--" + name] + [repr(v) for v in vs]
    for name, v in (("n", 8), ("k", 3), ("cost_min", 0.45 if job["dear"] else 1e-3), ("cost_max", 0.9 if job["dear"] else 0.004)):
        if name not in lists and name not in job["single"]:
            args += ["--" + name, repr(v)]
    args += ["--seed", str(job["seed"]), "--max_iterations", str(job["iters"])] + (["--execution_id", job["id"]] if job["id"] else [])
    got, code, err, figures, error = batchprog.call(args, {"metrics": job["metrics"], "generate_graphs": False}, job["paint"])
    if not ctx.check(error is None and code == 0, "the batch program failed", argv=args, error=error, err=err[-400:]):
        return
    ctx.count("batches")
    ctx.count("painted", int(job["paint"]))
    base = [d for d in os.listdir("output") if os.path.isdir("output/" + d)][0]
    home = os.path.abspath(os.path.join("output", base))
    with open(os.path.join(home, "aggregate-results-%s.csv" % base), newline="") as f:
        table = list(csv.reader(f))
    rows = [dict(zip(table[0], x)) for x in table[1:]]
    import sut
    metrics = [sut.reporters.REPORTER_IDS[i] for i in job["metrics"]]
    # which file shows what: one picture per parameter and metric, and one per metric over two parameters
    ctx.check(len({p for p, _ in figures}) == len(figures), "two graphs of a batch were written to the same file", files=[p for p, _ in figures][:20])
    ctx.check(all(os.path.dirname(p).startswith(home + os.sep) for p, _ in figures), "a graph of a batch is not in its folder",
              files=[p for p, _ in figures][:5])
    if job["paint"]:
        for p, _ in figures:
            with open(p, "rb") as f:
                ctx.check(f.read(8) == b"\x89PNG\r\n\x1a\n", "a graph of a batch is not a picture", file=p)
    scatters, maps = {}, {}
    for p, axes in figures:
        if any(ax["cells"] for ax in axes):
            name = os.path.basename(p)
            hit = [m for m in metrics if m in [ax["ylabel"] for ax in axes] + [ax["xlabel"] for ax in axes] or "-%s-" % m in name]
            ctx.check(bool(hit), "a heatmap does not name its metric", file=name)
            for m in hit:
                maps.setdefault(m, []).append((name, next(ax for ax in axes if ax["cells"])))
        else:
            for ax in axes:
                scatters.setdefault((ax["xlabel"], ax["ylabel"]), []).append(ax)
    want = {(v, m) for v in lists for m in metrics}
    if not ctx.check(set(scatters) == want and all(len(x) == 1 for x in scatters.values()), "there is not one graph per parameter that varies and metric",
                     missing=sorted(want - set(scatters))[:4], unexpected=sorted(set(scatters) - want)[:4]):
        return
    varied = False
    for (v, m), (ax,) in scatters.items():
        values = sorted((num(x[v]), num(x[m])) for x in rows if num(x[m]) >= 0)
        ctx.count("negative_values", sum(num(x[m]) < 0 for x in rows))
        drawn = sorted(p for ps in ax["points"] for p in ps)
        ctx.check(len(drawn) == len(values) and all(math.isclose(a, c, rel_tol=1e-9) and math.isclose(b, d, rel_tol=1e-9, abs_tol=1e-300)
                                                    for (a, b), (c, d) in zip(drawn, values)),
                  "a graph of a batch does not show the results of its runs", parameter=v, metric=m, drawn=drawn[:12], results=values[:12])
        ctx.check(len(ax["visible"]) == len(drawn), "a result lies outside the visible part of a graph", parameter=v, metric=m,
                  hidden=[p for p in drawn if p not in ax["visible"]][:5])
        ctx.count("graphs")
        ctx.count("points", len(drawn))
        varied = varied or len({b for _, b in values}) > 1
    if len(lists) != 2:
        ctx.check(not maps, "there is a heatmap although not two parameters vary", got=sorted(maps))
    else:
        ctx.check(set(maps) == set(metrics), "there is not one heatmap per metric", got=sorted(maps), metrics=metrics)
        for m, found in maps.items():
            if ctx.check(len(found) == 1, "there is not one heatmap per metric", metric=m, files=[n for n, _ in found]):
                heat(ctx, rows, lists, m, found[0][1])
    if varied and len(rows) > 1:
        ctx.seen(digest([job["lists"], job["metrics"], job["seed"]]))
    ctx.sample({"argv": args, "graphs": len(figures), "runs": len(rows)})


def heat(ctx, rows, lists, m, ax):
    a, b = ax["xlabel"], ax["ylabel"]
    if not ctx.check({a, b} == set(lists), "a heatmap does not name its two parameters", metric=m, labels=[a, b], parameters=list(lists)):
        return
    cells = ax["cells"][0]
    xs, ys = sorted(set(lists[a])), sorted(set(lists[b]))
    if not ctx.check(len(cells) == len(ys) and all(len(c) == len(xs) for c in cells), "a heatmap does not have one cell per combination", metric=m,
                     rows=len(cells), columns=len(cells[0]) if cells else 0, parameters=lists):
        return

    def labels(ticks, values, axis):
        """The value that each line of cells is labelled with."""
        out = {}
        for at, text in ticks:
            out[int(at)] = num(text)
        ok = sorted(out) == list(range(len(values))) and all(any(math.isclose(x, v, rel_tol=1e-3) for v in values) for x in out.values()) and \
            len(set(out.values())) == len(values)
        ctx.check(ok, "the lines of a heatmap are not labelled with the values of its parameter", axis=axis, labels=ticks, values=values)
        return {i: min(values, key=lambda v: abs(v - x)) for i, x in out.items()} if ok else None
    col, row = labels(ax["xticks"], xs, a), labels(ax["yticks"], ys, b)
    if col is None or row is None:
        return
    ctx.count("heatmaps")
    shown = []
    for i, line in enumerate(cells):
        for j, x in enumerate(line):
            values = [num(r[m]) for r in rows if num(r[a]) == col[j] and num(r[b]) == row[i]]
            ctx.count("cells")
            ctx.check(bool(values) and x is not None and min(values) - 1e-12 <= x <= max(values) + 1e-12, "a cell of a heatmap does not show the result of its "
                      "combination", metric=m, combination={a: col[j], b: row[i]}, drawn=x, results=values)
            shown.append(x)
    ctx.check(sorted(ax["texts"]) == sorted("%g" % x for x in shown if x is not None), "the numbers in a heatmap are not the values of its cells", metric=m,
              texts=ax["texts"][:12], values=shown[:12])
