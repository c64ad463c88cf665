#!/usr/bin/env python3
"""Driver: check.py <property id> [--replay file]. Generates the property's jobs from VERIF_SEED and VERIF_TIER, runs them in
worker processes under monitors, decides, writes evidence/<id>.json.
Exit 0: held on everything observed; 1: violation (with a VIOLATION line); 2: inconclusive."""
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)
from common import PY, REPO, VERIF, rng_for, seed, tier  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_findings(prop):
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == prop]
    except FileNotFoundError:
        return []


class Run:
    def __init__(self, prop, jobs, budget, required):
        self.prop, self.budget = prop, budget
        self.required = dict(required)
        self.jobs = queue.Queue()
        for i, j in enumerate(jobs):
            self.jobs.put((i, j))
        self.lock = threading.Lock()
        self.results = []
        self.stop = False
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.env = dict(os.environ, PYTHONPATH=LIB, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                        PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "pyc"), VERIF_SCRATCH=self.scratch,
                        VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(self.scratch, "mpl"),
                        PYTHONWARNINGS="ignore", PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"))
        os.makedirs(self.env["MPLCONFIGDIR"])

    def spawn(self):
        return subprocess.Popen([PY, os.path.join(LIB, "worker.py"), self.prop], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, text=True, env=self.env, cwd="/", start_new_session=True)

    def kill(self, p):
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()

    def more(self):
        """Within the budget; on a slow or loaded machine, until the required observations have been made."""
        spent = time.time() - self.t0
        return spent < self.budget or (spent < max(self.budget, 400) and any(n > 0 for n in self.required.values()))

    def serve(self, wall_limit):
        p = self.spawn()
        try:
            while not self.stop and self.more():
                try:
                    i, job = self.jobs.get_nowait()
                except queue.Empty:
                    break
                t1 = time.time()
                timer = threading.Timer(wall_limit, self.kill, [p])
                timer.start()
                try:
                    p.stdin.write(json.dumps(job) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                timer.cancel()
                if not line:
                    self.kill(p)
                    res = {"status": "inconclusive", "counts": {}, "distinct": [], "violations": [], "samples": [],
                           "notes": ["worker died or exceeded the wall-clock watchdog"]}
                    p = self.spawn()
                else:
                    res = json.loads(line)
                res["wall"] = time.time() - t1
                with self.lock:
                    self.results.append((i, job, res))
                    for name in self.required:
                        self.required[name] -= res["counts"].get(name, 0)
                    if any(v["key"] not in self.known for v in res["violations"]) and not os.environ.get("VERIF_ALL"):
                        self.stop = True
        finally:
            try:
                p.stdin.close()
                p.wait(timeout=5)
            except Exception:
                pass
            self.kill(p)

    def go(self, known, wall_limit):
        self.known = known
        n = max(1, min(WORKERS, self.jobs.qsize()))
        threads = [threading.Thread(target=self.serve, args=(wall_limit,)) for _ in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        shutil.rmtree(self.scratch, ignore_errors=True)
        return sorted(self.results, key=lambda x: x[0])


def main():
    prop = sys.argv[1]
    t0 = time.time()
    sd, tr = seed(), tier()
    module = importlib.import_module("props." + prop.lower())
    findings = load_findings(prop)
    open_findings = {f["key"]: f for f in findings if f["status"] == "open"}
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if replay:
        with open(replay) as f:
            jobs = [json.load(f)["job"]]
    else:
        # directed jobs first: the listed findings (and regressions of the repaired ones), then the generated ones
        jobs = [f["job"] for f in findings if f.get("job")]
        jobs += module.jobs(rng_for(prop, sd, tr), tr)
    budget = float(os.environ.get("VERIF_BUDGET", getattr(module, "BUDGET", {"quick": 35, "thorough": 600})[tr]))
    if replay:
        budget = 10 ** 6
    run = Run(prop, jobs, budget, {} if replay else getattr(module, "REQUIRE", {}))
    results = run.go(set(open_findings), getattr(module, "WALL_LIMIT", 500))

    counts, distinct, samples, notes = {}, set(), [], []
    statuses = {}
    violations, seen_known = [], {}
    for i, job, res in results:
        statuses[res["status"]] = statuses.get(res["status"], 0) + 1
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        distinct.update(res["distinct"])
        if len(samples) < 4:
            samples += [{"job": job, "observed": s} for s in res["samples"][:1]]
        notes += res["notes"][:1]
        for v in res["violations"]:
            if v["key"] in open_findings:
                seen_known[v["key"]] = v
            else:
                violations.append((job, v))
    for key, f in sorted(open_findings.items()):
        if key in seen_known or replay:
            if key in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        else:
            print("note: the known finding %s was not observed any more" % key)
    replays = []
    if violations:
        folder = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(folder, exist_ok=True)
        printed = set()
        for job, v in violations:
            if v["msg"] in printed or len(printed) >= 5:
                continue
            printed.add(v["msg"])
            body = {"property": prop, "seed": sd, "tier": tr, "job": job, "violation": v}
            name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12])
            path = os.path.join(folder, name)
            with open(path, "w") as f:
                json.dump(body, f, indent=1)
            replays.append(path)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["msg"][:600])
            if v["detail"]:
                print("  " + json.dumps(v["detail"], default=str)[:1500])
    slowest = max(results, key=lambda x: x[2]["wall"], default=None)
    if slowest:
        evidence_slowest = {"wall_s": round(slowest[2]["wall"], 1), "job_index": slowest[0]}
        if os.environ.get("VERIF_DEBUG"):
            print("slowest", evidence_slowest, json.dumps(slowest[1])[:700], slowest[2]["samples"][:1])
    required = getattr(module, "REQUIRE", {})
    missing = {k: (counts.get(k, 0), n) for k, n in required.items() if counts.get(k, 0) < n}
    bad_status = sum(v for k, v in statuses.items() if k == "inconclusive")
    evaluations = counts.pop("evaluations", None)
    evidence = {
        "property": prop, "tier": tr, "seed": sd, "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations if evaluations is not None else len(results),
            "distinct_nontrivial": len(distinct), "rule": module.RULE,
            "samples": samples or [{"job": j} for j in [r[1] for r in results[:2]]],
            "scenarios_run": len(results), "scenarios_generated": len(jobs), "statuses": statuses,
            "observed": dict(sorted(counts.items())),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if notes:
        evidence["coverage"]["notes"] = notes[:5]
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    print("%s %s seed=%d: %d scenarios, %d distinct, %s, %.1fs" % (
        prop, tr, sd, len(results), len(distinct), json.dumps(dict(sorted(counts.items()))), time.time() - t0))
    if violations:
        sys.exit(1)
    if replay:
        sys.exit(0)
    if missing or bad_status > 0.05 * max(1, len(results)):
        print("INCONCLUSIVE: too few observations %s, statuses %s" % (missing, statuses))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
