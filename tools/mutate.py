#!/usr/bin/env python3
"""mutate.py OUT [max per file] [seed]: small changes to copies of /repo, each judged by the checks that go with the changed
file; survivors are listed in OUT for inspection. A tool for finding holes in the checks; no check uses it."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "logic/helper.py": "C07 C06 C05 C09 C10 C08 C01 C22 C04 C16 C15 C17 C19 C20 C18",
    "logic/sim.py": "C13 C12 C01 C16 C04 C05 C14 C17 C22 C10 C08 C24",
    "logic/stakeholder.py": "C02 C08 C09 C10 C23 C24 C11 C25 C03 C12",
    "logic/stakeholder_profiles.py": "C08 C10 C09 C25 C22",
    "logic/reward_schemes.py": "C06 C05",
    "logic/model_reporters.py": "C15 C16",
    "logic/pool.py": "C02 C05 C24 C03",
    "logic/activations.py": "C11 C14",
    "custom_batchrunner.py": "C18 C19 C17",
    "interactiveViz/myModularVisualization.py": "C21",
    "interactiveViz/myChartModule.py": "C21",
    "interactiveViz/bubbleChartModule.py": "C21",
    "interactiveViz/stackedChartModule.py": "C21",
    "main.py": "C20",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def variants(node):
    """Replacement source texts for a node."""
    out = []

    def put(new):
        out.append(ast.unparse(new))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), []):
            put(ast.Compare(node.left, [op()], node.comparators))
    elif isinstance(node, ast.BinOp):
        for op in BIN.get(type(node.op), []):
            put(ast.BinOp(node.left, op(), node.right))
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            put(node.left)
    elif isinstance(node, ast.BoolOp):
        for v in node.values:
            put(v)
    elif isinstance(node, ast.IfExp):
        put(node.body)
        put(node.orelse)
    elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
        out += [repr(node.value + 1)] + ([repr(node.value - 1)] if node.value else [])
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        out.append(repr(not node.value))
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "sum", "fsum", "round", "int"):
        if node.func.id in ("min", "max") and len(node.args) > 1:
            out += [ast.unparse(a) for a in node.args]
            put(ast.Call(ast.Name({"min": "max", "max": "min"}[node.func.id]), node.args, node.keywords))
    elif isinstance(node, ast.comprehension):
        pass
    elif isinstance(node, ast.UnaryOp):
        put(node.operand)
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        out.append("pass")
    elif isinstance(node, (ast.Assign, ast.AugAssign)) and isinstance(node, ast.AugAssign):
        out.append("pass")
    elif isinstance(node, (ast.Continue, ast.Break)):
        out.append("pass")
    elif isinstance(node, ast.ListComp) and node.generators[0].ifs:
        g = node.generators[0]
        put(ast.ListComp(node.elt, [ast.comprehension(g.target, g.iter, [], 0)]))
    return out


def mutants(path, rel):
    with open(path, newline="") as f:
        src = f.read()
    lines = src.encode().splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line))
    raw, out = src.encode(), []
    skip = {"add_script_arguments", "find_target_pool", "revise_beliefs", "discard_draft_pools", "get_status", "rewind_pool_id_seq",
            "generate_cost_distr_bands", "generate_cost_distr_bands_manual", "generate_cost_distr_nrm", "generate_cost_distr_disparity",
            "truncate_pareto", "sci_notation", "plot_aggregate_data", "plot_aggregate_data_heatmap"}
    tree = ast.parse(src)

    def walk(node, where):
        for child in ast.iter_child_nodes(node):
            name = where
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                if child.name in skip:
                    continue
                name = child.name
            if hasattr(child, "lineno") and where:
                a = starts[child.lineno - 1] + child.col_offset
                b = starts[child.end_lineno - 1] + child.end_col_offset
                for v in variants(child):
                    text = v if isinstance(child, ast.stmt) else "(" + v + ")"
                    out.append((rel, child.lineno, where, raw[a:b].decode(), v, raw[:a] + text.encode() + raw[b:]))
            walk(child, name)
    walk(tree, "")
    return out


def judge(i, m):
    rel, line, where, old, new, body = m
    copy = "/tmp/mut/m%d" % i
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "output"))
    try:
        with open(os.path.join(copy, rel), "wb") as f:
            f.write(body)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_WORKERS="2", VERIF_BUDGET=os.environ.get("MUT_BUDGET", "20"))
        verdict = []
        for c in CHECKS[rel].split():
            try:
                p = subprocess.run([sys.executable, os.path.join(VERIF, "lib/check.py"), c], env=env, cwd="/tmp/mut", stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=700)
                rc, t = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, t = "timeout", ""
            verdict.append((c, rc))
            if rc == 1:
                msg = [x for x in t.splitlines() if x.startswith("  ")][:1]
                return {"caught": c, "msg": (msg or [t[-200:]])[0][:120], "tried": verdict}
        return {"caught": None, "tried": verdict}
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    out, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
    r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    only = sys.argv[4:] or list(CHECKS)
    todo = []
    for rel in only:
        ms = mutants("/repo/" + rel, rel)
        r.shuffle(ms)
        todo += ms[:per]
    r.shuffle(todo)
    print(len(todo), "mutants")

    def one(x):
        i, m = x
        try:
            v = judge(i, m)
        except Exception as e:
            v = {"caught": "error", "msg": repr(e)}
        with open(out, "a") as f:
            f.write(json.dumps({"file": m[0], "line": m[1], "in": m[2], "old": m[3][:150], "new": m[4][:150], **v}) + "\n")
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "5"))) as ex:
        list(ex.map(one, enumerate(todo)))


main()
