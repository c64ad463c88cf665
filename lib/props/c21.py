import asyncio
import json
import math
import os
import re
import sys
import traceback

import scen
import simprop
from common import REPO, digest, rng_for

RULE = ("Charts are rendered for models in all kinds of states; a scripted client and a scripted browser (node, with the page and the chart library "
        "stubbed) send random sequences of requests to the real server over a loopback socket. Non-trivial: a distinct configuration or "
        "sequence of requests during which a model with pools was shown.")
REQUIRE = {"payloads": 1200, "payloads_with_pools": 700, "requests": 400, "resets": 25, "new_params": 40, "ends": 20, "steps_shown": 300,
           "browser_actions": 60, "browser_sessions": 5, "app_sessions": 2, "interrupted_runs": 8, "places_pointed_to": 1500}
WALL_LIMIT = 400
VIZ = os.path.join(REPO, "interactiveViz")


def jobs(r, tier):
    out = []
    big = tier != "quick"
    for i in range(1500 if big else 110):
        c = simprop.configs(r, 1, inactive=0.2)[0]
        if c["n"] > 40:
            c["n"] = 40
            c.pop("_stakes", None)
            if c["stake_distr_source"] == "file":
                c["stake_distr_source"] = "Pareto"
        c["max_iterations"] = c["max_iterations"] if isinstance(c["max_iterations"], list) else min(c["max_iterations"], 30)
        out.append({"kind": "payload", "cfg": c, "seed": r.randrange(10 ** 9)})
    for i in range(400 if big else 36):
        out.insert(i * 3, {"kind": "server", "seed": r.randrange(10 ** 9), "length": r.choice([10, 25, 40]), "app": i % 9 == 4})
    for i in range(200 if big else 18):
        out.insert(i * 6, {"kind": "browser", "seed": r.randrange(10 ** 9), "length": r.choice([6, 10, 16]), "app": i % 4 == 1})
    return out


SERIES = ("Pool count", "Mean pledge", "Total pledge", "Operator count", "Iterations")


def elements(r):
    """Chart modules like those of the application, with series chosen at random."""
    from interactiveViz.bubbleChartModule import BubbleChartModule
    from interactiveViz.myChartModule import MyChartModule
    from interactiveViz.stackedChartModule import StackedChartModule
    out = []
    for kind in r.sample(["line", "lines", "stacked", "bubble"], r.choice([1, 2, 3, 4])):
        if kind in ("line", "lines"):
            names = r.sample(SERIES, 1 if kind == "line" else r.choice([2, 3]))
            out.append(("line", names, MyChartModule([{"label": n, "title": n + " over time", "xLabel": "Round", "yLabel": n, "tooltipText": "",
                                                       "color": "Blue"} for n in names])))
        elif kind == "stacked":
            out.append(("stacked", None, StackedChartModule([{"Label": "Stake per agent id", "tooltipText": " Agent", "xLabel": "Round",
                                                              "yLabel": "Stake per operator", "Num_pools": 120}])))
        else:
            out.append(("bubble", None, BubbleChartModule([{"Label": "StakePairs"}])))
    return out


APP = [("line", ["Pool count"]), ("stacked", None), ("bubble", None)]
METRICS = [1, 2, 3, 9, 14, 21, 27, 30]


def expected(V, kind, names):
    """What a chart has to get for a state (None: the model has not recorded anything yet)."""
    from statistics import fmean
    import metrics_ref
    pools = V["pools"].values() if V else []
    if kind == "line":
        if not V:
            return lambda got: got == []
        want = []
        for n in names:
            if n == "Pool count":
                want.append(lambda x: x == len(pools))
            elif n == "Total pledge":
                want.append(lambda x: abs(x - math.fsum(p["pledge"] for p in pools)) <= 1e-9)
            elif n == "Mean pledge":
                want.append(lambda x: abs(x - (fmean(p["pledge"] for p in pools) if pools else 0)) <= 1e-9)
            elif n == "Iterations":
                want.append(lambda x: x == V["steps"])
            elif n == "Operator count":
                want.append(lambda x: x == len({p["owner"] for p in pools}))
            else:
                e = metrics_ref.expected(V, n)
                want.append(e[0] if e else lambda x: True)
        return lambda got: isinstance(got, list) and len(got) == len(want) and all(f(x) for f, x in zip(want, got))
    if kind == "stacked":
        if not V:
            return lambda got: [list(x) for x in got] == [[], []]
        total = {a: 0.0 for a in V["agents"]}
        for p in pools:
            total[p["owner"]] += p["stake"]

        def ok(got):
            keys, values = got
            return len(keys) == len(values) and sorted(map(int, keys)) == sorted(total) and \
                all(abs(total[int(k)] - v) <= 1e-12 for k, v in zip(keys, values))
        return ok
    if not V:
        return lambda got: got == []
    want = sorted((p["id"], p["owner"], V["agents"][p["owner"]]["stake"], p["stake"], p["margin"]) for p in pools)

    def ok(got):
        if len(got) % 5:
            return False
        rows = sorted((got[i + 3], got[i + 4], got[i], got[i + 1], got[i + 2]) for i in range(0, len(got), 5))
        return len(rows) == len(want) and all(a[:2] == b[:2] and all(abs(x - y) <= 1e-12 for x, y in zip(a[2:], b[2:])) for a, b in zip(rows, want))
    return ok


def recorder():
    """Remembers the state each time that the model records its data."""
    import sut
    from view import view

    class R(sut.Monitor):
        def __init__(self):
            self.states = []

        def collect_begin(self, m):
            self.states.append(view(m))
    return R()


class _Hook:
    """Simulations that a server makes, in order, with the arguments that they were given and a recorder of their states."""
    made = []


def watched_class():
    import sut
    if "WatchedSimulation" not in globals():
        class WatchedSimulation(sut.sim.Simulation):
            def __init__(self, *args, **kw):
                super().__init__(*args, **kw)
                sut.install()
                rec = recorder()
                sut._active[id(self)] = [rec]
                _Hook.made.append((self, kw, rec))
        WatchedSimulation.__qualname__ = "WatchedSimulation"
        globals()["WatchedSimulation"] = WatchedSimulation
    return globals()["WatchedSimulation"]


def check_payload(ctx, data, kinds, states, what):
    V = states[-1] if states else None
    ctx.count("payloads")
    if V and V["pools"]:
        ctx.count("payloads_with_pools")
    if not ctx.check(isinstance(data, list) and len(data) == len(kinds), "the data of a step is not one entry per chart", got=str(data)[:200]):
        return
    for got, (kind, names) in zip(data, kinds):
        try:
            good = expected(V, kind, names)(got)
        except (TypeError, ValueError, KeyError):
            good = False
        ctx.check(good, "a chart (%s) does not get the state that the model recorded last (%s)" % (kind, what), got=str(got)[:500],
                  names=names, recorded=None if V is None else len(states), pools=None if V is None else str(list(V["pools"].values()))[:500])


def run(job, ctx):
    r = rng_for("c21", job["seed"])
    globals()[job["kind"]](job, ctx, r)


def payload(job, ctx, r):
    import sut
    cfg = dict(job["cfg"], metrics=METRICS)
    els = elements(r)
    kinds = [(k, n) for k, n, _ in els]
    m = sut.make(cfg)
    rec = recorder()

    def render():
        data = json.loads(json.dumps([e.render(m) for _, _, e in els]))   # as it would arrive at the browser
        check_payload(ctx, data, kinds, rec.states, "round %d" % m.schedule.steps)
    with sut.watched(m, [rec]), sut.quiet():
        render()
        while m.running and not ctx.violations:
            m.step()
            render()
    simprop.note(ctx, cfg, m)
    # a chart of a series that is not collected stays empty
    for k, n, e in els:
        m2 = sut.make(dict(cfg, metrics=[6], execution_id="none"))
        with sut.quiet():
            m2.step()
        ctx.check(expected(None, k, n)(json.loads(json.dumps(e.render(m2)))), "a chart of a series that is not collected is not empty", kind=k)


# ---- the server

ORDERS = ("random", "sequential", "simultaneous", "semisimultaneous")
PARAMS = {"n": (10, 12, 20, 30), "k": (1, 2, 3, 5, 8), "a0": (0, 0.1, 0.3, 0.9), "cost_min": (0.001, 0.002), "cost_max": (0.003, 0.01),
          "seed": (1, 2, 42, 77), "inactive_stake_fraction": (0.0, 0.1, 0.5), "extra_pool_cost_fraction": (0, 0.4, 1),
          "agent_activation_order": ORDERS, "inactive_stake_fraction_known": (False, True)}


def make_server(r, app):
    """(application, kinds of its charts, whether new parameters take effect at once)"""
    import sut
    cls = watched_class()
    sys.path.insert(0, REPO) if REPO not in sys.path else None
    _Hook.made.clear()
    if app:
        # the application itself; it launches its server when it is imported
        import importlib
        from mesa.visualization.ModularVisualization import ModularServer
        import interactiveViz.myModularVisualization as mmv
        started = []
        own = "launch" in vars(mmv.MyModularServer)
        old, old2, old_class = ModularServer.launch, mmv.MyModularServer.launch, sut.sim.Simulation
        ModularServer.launch = mmv.MyModularServer.launch = lambda self, *a, **kw: started.append(self)
        sut.sim.Simulation = cls
        try:
            sys.modules.pop("interactiveViz.runViz", None)
            importlib.import_module("interactiveViz.runViz")
        finally:
            ModularServer.launch, sut.sim.Simulation = old, old_class
            if own:
                mmv.MyModularServer.launch = old2
            else:
                del mmv.MyModularServer.launch
        server = started[0]
        return server, APP, isinstance(server, mmv.MyModularServer)
    from interactiveViz.myModularVisualization import MyModularServer
    from mesa.visualization.UserParam import UserSettableParameter
    params = {"max_iterations": r.choice([3, 8, 20]), "generate_graphs": False, "metrics": METRICS,
              "iterations_after_convergence": r.choice([1, 3])}
    for name, values in PARAMS.items():
        x = r.choice(values)
        if name in ("agent_activation_order", "inactive_stake_fraction_known"):
            if r.random() < 0.6:
                params[name] = UserSettableParameter("checkbox", name, x) if isinstance(x, bool) else \
                    UserSettableParameter("choice", name, x, choices=list(values))
            else:
                params[name] = x
        elif r.random() < 0.8:
            params[name] = UserSettableParameter("number", name, x) if r.random() < 0.5 else \
                UserSettableParameter("slider", name, x, min(values), max(values), 1)
        else:
            params[name] = x
    els = elements(r)
    server = MyModularServer(cls, [e for _, _, e in els], "test", params)
    return server, [(k, n) for k, n, _ in els], True


def requests(r, length, settable):
    out = []
    burst = 0
    while len(out) < length:
        x = r.random()
        if burst or x < 0.6:
            burst = burst - 1 if burst else r.choice([0, 0, 3, 8])
            out.append({"type": "get_step", "step": len(out)})
        elif x < 0.72:
            out.append({"type": "reset"})
        elif x < 0.92 and settable:
            name = r.choice(sorted(settable))
            out.append({"type": "submit_params", "param": name, "value": r.choice(PARAMS[name])})
        elif x < 0.96:
            out.append({"type": "submit_params", "param": r.choice(["nothing", "max_iterations", "running", "metrics"]), "value": 1})
        else:
            out.append({"type": "something else"})
    return out


async def serve(server):
    import socket
    import tornado.httpserver
    import tornado.netutil
    sock = socket.socket()
    sock.bind(("127.0.0.1", 0))
    sock.listen(16)
    sock.setblocking(False)
    http = tornado.httpserver.HTTPServer(server)
    http.add_sockets([sock])
    return http, sock.getsockname()[1]


def free(server):
    import sut
    for m, _, _ in _Hook.made:
        sut._active.pop(id(m), None)
        sut._depth.pop(id(m), None)


def server(job, ctx, r):
    import sut
    with sut.quiet():
        app, kinds, at_once = make_server(r, job["app"])
        app.verbose = r.random() < 0.5
        try:
            asyncio.run(talk(job, ctx, r, app, kinds, at_once))
        finally:
            free(app)


def fresh(ctx, params, what):
    """The newest model is a new run with these parameters."""
    m, kw, rec = _Hook.made[-1]
    wrong = {k: (kw.get(k), v) for k, v in params.items() if kw.get(k) != v}
    ctx.check(not wrong, "a new run does not have the chosen parameters (%s)" % what, wrong=str(wrong))
    ctx.check(m.schedule.steps == 0 and not rec.states, "a new run does not start at its beginning (%s)" % what, steps=m.schedule.steps)


async def talk(job, ctx, r, app, kinds, at_once):
    import tornado.httpclient
    import tornado.websocket
    http, port = await serve(app)
    current = {k: getattr(v, "value", v) for k, v in app.model_kwargs.items()}
    settable = {k for k, v in app.model_kwargs.items() if hasattr(v, "value")} & set(PARAMS)
    fresh(ctx, current, "at the start")
    page = await tornado.httpclient.AsyncHTTPClient().fetch("http://127.0.0.1:%d/" % port)
    text = page.body.decode()
    ctx.check(all(c in text for c in app.js_code), "the page does not set up all the charts")
    ws = await tornado.websocket.websocket_connect("ws://127.0.0.1:%d/ws" % port)

    async def answer():
        return json.loads(await asyncio.wait_for(ws.read_message(), 60))
    hello = await answer()
    ctx.check(hello["type"] == "model_params" and {k: v["value"] for k, v in hello["params"].items()} ==
              {k: current[k] for k in hello["params"]} and settable <= set(hello["params"]), "the server does not tell the parameters", got=str(hello)[:300])
    log = requests(r, job["length"], settable)
    if job["app"]:
        log = [{"type": "submit_params", "param": "n", "value": 20}, {"type": "reset"}] + log[:14]
    shown = 0
    for q in log:
        m, kw, rec = _Hook.made[-1]
        models, steps, running, count = len(_Hook.made), m.schedule.steps, m.running, len(rec.states)
        await ws.write_message(json.dumps(q))
        ctx.count("requests")
        if q["type"] == "get_step":
            a = await answer()
            if not running:
                ctx.count("ends")
                ctx.check(a["type"] == "end", "the end of the run is not announced", got=str(a)[:200])
                ctx.check(len(rec.states) == count, "a run that has ended goes on")
            else:
                ctx.count("steps_shown")
                ctx.check(len(rec.states) == count + 1 and m.schedule.steps - steps in (0, 1) and len(_Hook.made) == models,
                          "a request for a step did not make one step", steps=[steps, m.schedule.steps], records=[count, len(rec.states)])
                ctx.check(a["type"] == "viz_state", "a request for a step was not answered with its data", got=str(a)[:200])
                check_payload(ctx, a.get("data"), kinds, rec.states, "step request")
                shown += bool(rec.states and rec.states[-1]["pools"])
        elif q["type"] == "reset":
            a = await answer()
            ctx.count("resets")
            if ctx.check(len(_Hook.made) == models + 1, "a reset did not start one new run", runs=len(_Hook.made) - models):
                fresh(ctx, current, "reset")
                ctx.check(a["type"] == "viz_state", "a reset was not answered with the new state", got=str(a)[:200])
                check_payload(ctx, a.get("data"), kinds, [], "reset")
        else:
            # there is no answer to these: the next request shows that none came
            if q["type"] == "submit_params" and q["param"] in settable:
                current[q["param"]] = q["value"]
                ctx.count("new_params")
            await asyncio.sleep(0.01)
            for _ in range(200):
                if q["type"] != "submit_params" or q["param"] not in settable or not at_once or len(_Hook.made) > models:
                    break
                await asyncio.sleep(0.01)
            if q["type"] == "submit_params" and q["param"] in settable and at_once:
                if ctx.check(len(_Hook.made) == models + 1, "new parameters did not start one new run", runs=len(_Hook.made) - models):
                    fresh(ctx, current, "new parameter")
            else:
                ctx.check(len(_Hook.made) == models, "a new run started that nobody asked for", request=q)
        if ctx.violations:
            break
    ws.close()
    http.stop()
    ctx.count("app_sessions", int(job["app"]))
    if shown:
        ctx.seen("server/%d" % job["seed"])
    ctx.sample({"requests": [q["type"] for q in log][:20], "charts": [k for k, _ in kinds]})


# ---- the browser

def browser(job, ctx, r):
    import sut
    with sut.quiet():
        app, kinds, at_once = make_server(r, job["app"])
        app.verbose = False
        try:
            asyncio.run(browse(job, ctx, r, app, kinds, at_once))
        finally:
            free(app)


async def browse(job, ctx, r, app, kinds, at_once):
    http, port = await serve(app)
    settable = sorted({k for k, v in app.model_kwargs.items() if hasattr(v, "value")} & set(PARAMS))
    actions = []
    if job["app"]:
        actions += [{"do": "set", "param": "n", "value": 20}, {"do": "reset"}]
    for i in range(job["length"]):
        x = r.random()
        if x < 0.4:
            actions.append({"do": "step"})
        elif x < 0.58:
            actions.append({"do": "play", "count": r.choice([2, 5, 40] if not job["app"] else [2, 4])})
        elif x < 0.68:
            actions.append({"do": r.choice(["play-reset", "stop-start"]), "fps": 8, "delay": r.choice([0, 20, 60])})
        elif x < 0.75:
            actions.append({"do": "step-reset"})
        elif x < 0.85 or not settable:
            actions.append({"do": "reset"})
        else:
            name = r.choice(settable)
            actions.append({"do": "set", "param": name, "value": r.choice(PARAMS[name])})
            if isinstance(actions[-1]["value"], str):
                actions[-1]["choice"] = PARAMS[name].index(actions[-1]["value"])
            actions.append({"do": "reset"})
    for name in ("play-reset", "stop-start"):
        places = [i for i in range(len(actions) + 1) if i == 0 or actions[i - 1]["do"] != "set"]   # a reset follows each new parameter
        actions.insert(r.choice(places[-6:] if job["app"] else places), {"do": name, "fps": 8, "delay": r.choice([0, 30, 60])})
    scripts = [os.path.join(VIZ, f) for f in ("myChartModule.js", "stackedChartModule.js", "bubbleChartModule.js")] + \
        [os.path.join(VIZ, "templates", "js", "myruncontrol.js")]
    with open("spec.json", "w") as f:
        json.dump({"port": port, "scripts": scripts, "js_code": app.js_code, "actions": actions, "timeout": 120,
                   "latency": r.choice([0, 0, 30, 90])}, f)
    # what the last run had recorded after each action
    p = await asyncio.create_subprocess_exec("node", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "browser.js"),
                                             "spec.json", stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.PIPE)
    out, err = await asyncio.wait_for(p.communicate(), 200)
    http.stop()
    try:
        res = json.loads(out.decode().strip().splitlines()[-1])
    except (IndexError, ValueError):
        ctx.violation("the page failed", err=err.decode()[-1500:])
        return
    if "error" in res:
        ctx.violation("the page failed: " + res["error"], received=res.get("received", [])[-5:], sent=res.get("sent", [])[-5:], err=err.decode()[-500:])
        return
    ctx.count("browser_sessions")
    ctx.count("app_sessions", int(job["app"]))
    # Follow the actions on the recorded runs. The page resets once when it has been set up.
    runs = list(_Hook.made)
    index = 1
    params = {k: getattr(v, "value", v) for k, v in runs[0][0].__class__ and app.model_kwargs.items()}
    answered = 0     # steps of the current run that were answered with data
    shown = False
    for s in res["steps"]:
        a, got = s["action"], s["after"]
        ctx.count("browser_actions")
        if a["do"] == "set":
            index += 1 if at_once else 0
            continue   # the page follows with the reset
        if a["do"].endswith("reset"):
            index += 1
            answered = 0
        if not ctx.check(index < len(runs), "the page's requests did not start the runs that they should", expected=index + 1, runs=len(runs),
                         sent=res["sent"][-6:]):
            return
        m, kw, rec = runs[index]
        last = next((x for x in res["steps"][res["steps"].index(s) + 1:] if x["action"]["do"] in ("reset", "set", "step-reset", "play-reset")), None) is None
        tick = got["tick"]
        ctx.check(got["shown"] == str(tick), "the page shows another step number than the current one", shown=got["shown"], tick=tick)
        labels = [c["labels"] for c in got["charts"]]
        # the number of records that arrived: one per request, except for the one that was answered with "end"
        arrived = tick - (1 if got["finished"] else 0)
        ctx.check(0 <= arrived <= len(rec.states), "the page counts more steps than the run made", tick=tick, records=len(rec.states))
        if a["do"] == "step" and not got["finished"]:
            ctx.check(arrived == answered + 1, "the step button does not make one step", before=answered, after=arrived)
        x = s["extra"]
        ctx.check(not x.get("after_stop"), "the page asked for further steps after it had been stopped", sent=x, action=a)
        if "times" in x:
            ctx.count("interrupted_runs")
            ctx.count(a["do"].replace("-", "_"))
            gaps = [q - p for p, q, kind in zip(x["times"], x["times"][1:], x["kinds"][1:]) if kind == "get_step"]
            ctx.check(all(g > 0.7 * x["interval"] for g in gaps), "the page makes more than one step per interval", gaps=gaps,
                      interval=x["interval"], action=a)
            ctx.check(gaps or got["finished"], "the page did not go on after it had been interrupted", action=a, sent=x)
        if a["do"] == "play" and not got["finished"]:
            ctx.check(arrived >= answered + 1, "the start button makes no steps", before=answered, after=arrived)
        ctx.check(arrived >= answered, "the page lost steps", before=answered, after=arrived)
        answered = arrived
        if got["finished"]:
            ctx.count("browser_ends")
            ctx.check(not m.running and arrived == len(rec.states), "the page says that the run has ended, but it has not", records=len(rec.states),
                      arrived=arrived)
            ctx.check(got["button"] == "Done" and not got["running"], "the page does not show that the run has ended", button=got["button"])
        else:
            ctx.check(not got["running"], "the page goes on although it was stopped", action=a)
        states = rec.states[:arrived]
        for (kind, names), chart in zip(kinds, got["charts"]):
            try:
                show(ctx, kind, names, chart, states, a)
                wrong = None if ctx.violations else pointed(kind, chart, states)
            except (TypeError, ValueError, KeyError, IndexError):
                ctx.violation("a chart (%s) on the page shows what makes no sense" % kind, shown=str(chart["data"])[:500], trace=traceback.format_exc()[-800:])
                return
            ctx.count("places_pointed_to", len(chart["tips"] or []))
            ctx.check(wrong is None, "a chart (%s) on the page describes a place of it wrongly" % kind, said=wrong, action=a)
        shown = shown or bool(states and states[-1]["pools"])
        if ctx.violations:
            return
    sets = [x for x in res["sent"] if x["type"] == "submit_params"]
    want = [{"type": "submit_params", "param": a["param"], "value": a["value"]} for a in actions if a["do"] == "set"]
    ctx.check(sets == want, "the page did not send the chosen parameters", got=sets, expected=want)
    if want:
        chosen = dict(params)
        for x in want:
            chosen[x["param"]] = x["value"]
        wrong = {k: (runs[-1][1].get(k), v) for k, v in chosen.items() if runs[-1][1].get(k) != v}
        ctx.check(not wrong, "a new run does not have the chosen parameters (browser)", wrong=str(wrong))
    if shown:
        ctx.seen("browser/%d" % job["seed"])
    ctx.sample({"actions": [a["do"] for a in actions], "final": {k: res["steps"][-1]["after"][k] for k in ("tick", "finished", "button")}})


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", text)]


def pointed(kind, chart, states):
    """Whether what the page says about the places of a chart is right (nothing can be said if it does not say anything)."""
    for t in chart["tips"] or []:
        i = t["index"]
        title, text = numbers(t["title"]), numbers(t["text"])
        if kind == "bubble":
            p = chart["data"][0]["data"][i]
            q = states[-1]["pools"].get(p["pool_id"])
            want = [states[-1]["agents"][q["owner"]]["stake"], q["stake"], q["margin"]]
            if title != [q["id"], q["owner"]] or len(text) != 3 or any(abs(a - b) > 0.51e-4 for a, b in zip(text, want)):
                return t
            continue
        if title != [float(chart["labels"][i])]:
            return t
        value = chart["data"][t["dataset"]]["data"][i]
        if kind == "line":
            if not text or abs(text[0] - value) > 0.51e-4 + 1e-9 * abs(value):
                return t
        else:
            stake = math.fsum(p["stake"] for p in states[i]["pools"].values() if p["owner"] == text[0])
            if len(text) != 2 or text[0] not in states[i]["agents"] or abs(text[1] - stake) > 0.51e-4:
                return t
    return None


def show(ctx, kind, names, chart, states, action):
    """A chart on the page shows the states that were recorded, in order."""
    if kind == "line":
        want = [expected(V, kind, [n]) for n in names for V in [None]]
        series = [d["data"] for d in chart["data"]]
        if states:
            good = len(series) == len(names) and all(len(d) == len(states) for d in series) and \
                all(expected(V, kind, [n])([x]) for n, d in zip(names, series) for V, x in zip(states, d))
        else:
            good = series == []
        ctx.check(good, "a line chart on the page does not show what was recorded", names=names, shown=str(series)[:400], rounds=len(states),
                  action=action)
        ctx.check(chart["labels"] == list(range(len(states) + 1)), "a line chart's axis on the page does not count the steps", labels=chart["labels"][-5:],
                  rounds=len(states), action=action)
    elif kind == "stacked":
        good = len(chart["data"]) == (len(states[0]["agents"]) if states else 0)
        for d in chart["data"]:
            # keys of an earlier run with the same agents may be longer
            good = good and len(d["data"]) == len(states) and len(d["keys"]) >= len(states)
        for i, V in enumerate(states):
            good = good and expected(V, kind, None)([[d["keys"][i] for d in chart["data"]], [d["data"][i] for d in chart["data"]]])
        ctx.check(good, "the stacked chart on the page does not show what was recorded", rounds=len(states), shown=str(chart["data"])[:300], action=action)
        ctx.check(chart["labels"] == list(range(len(states) + 1)), "the stacked chart's axis on the page does not count the steps",
                  labels=chart["labels"][-5:], rounds=len(states), action=action)
    else:
        points = chart["data"][0]["data"] if chart["data"] else []
        if not states:
            good = points == []
        else:
            flat = [v for p in points for v in (p["x"], p["y"], (p["r"] - 3) / 20, p["pool_id"], p["owner_id"])]
            V = dict(states[-1])
            # pools whose owners have no stake at all are not drawn
            V["pools"] = {i: p for i, p in V["pools"].items() if V["agents"][p["owner"]]["stake"] > 0}
            good = expected(V, kind, None)(flat)
        ctx.check(good, "the bubble chart on the page does not show the pools", points=str(points)[:400], action=action,
                  pools=str(list(states[-1]["pools"].values()))[:400] if states else None)
