"""Loads the code under test (from REPO) into a worker process and attaches monitors to it from the outside, by wrapping
the methods that Mesa's protocol prescribes (Simulation.step, agent.step, agent.advance, DataCollector.collect)."""
import contextlib
import io
import os
import sys
import time
import warnings

from common import REPO

warnings.simplefilter("ignore")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")

import numpy  # noqa: E402

numpy.seterr(all="ignore")
import logic.sim as sim  # noqa: E402
import logic.helper as hlp  # noqa: E402
import logic.model_reporters as reporters  # noqa: E402
import logic.stakeholder as stakeholder  # noqa: E402
import logic.stakeholder_profiles as profiles  # noqa: E402
import logic.reward_schemes as rss  # noqa: E402
import logic.pool as pool_mod  # noqa: E402
import logic.strategy as strategy_mod  # noqa: E402
import mesa.datacollection  # noqa: E402

_active = {}
_installed = False


class Monitor:
    """Base class: every method is called synchronously at the corresponding event of the model it is attached to."""

    def attach(self, m): pass
    def step_begin(self, m): pass
    def step_end(self, m): pass
    def collect_begin(self, m): pass
    def collect_end(self, m): pass
    def agent_step_begin(self, m, a): pass
    def agent_step_end(self, m, a): pass
    def advance_begin(self, m, a): pass
    def advance_end(self, m, a): pass
    def finish(self, m): pass


last_event = 0.0


def _fire(m, event, *args):
    global last_event
    last_event = time.process_time()
    for mon in _active.get(id(m), ()):
        getattr(mon, event)(m, *args)


def _wrap_agent(cls, name, begin, end):
    original = cls.__dict__[name]

    def wrapper(self, *args, **kwargs):
        mons = _active.get(id(self.model))
        if not mons:
            return original(self, *args, **kwargs)
        depth = _depth.setdefault(id(self.model), {})
        key = (name, self.unique_id)
        depth[key] = depth.get(key, 0) + 1
        try:
            if depth[key] == 1:
                _fire(self.model, begin, self)
            result = original(self, *args, **kwargs)
            if depth[key] == 1:
                _fire(self.model, end, self)
            return result
        finally:
            depth[key] -= 1

    wrapper.__name__ = name
    setattr(cls, name, wrapper)


_depth = {}


def _all_subclasses(cls):
    out = [cls]
    for c in cls.__subclasses__():
        out += _all_subclasses(c)
    return out


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for cls in _all_subclasses(stakeholder.Stakeholder):
        if "step" in cls.__dict__:
            _wrap_agent(cls, "step", "agent_step_begin", "agent_step_end")
        if "advance" in cls.__dict__:
            _wrap_agent(cls, "advance", "advance_begin", "advance_end")
    original_step = sim.Simulation.step

    def step(self):
        _fire(self, "step_begin")
        result = original_step(self)
        _fire(self, "step_end")
        return result

    sim.Simulation.step = step
    original_collect = mesa.datacollection.DataCollector.collect

    def collect(self, model):
        _fire(model, "collect_begin")
        result = original_collect(self, model)
        _fire(model, "collect_end")
        return result

    mesa.datacollection.DataCollector.collect = collect


@contextlib.contextmanager
def watched(m, monitors):
    install()
    _active[id(m)] = list(monitors)
    for mon in monitors:
        mon.attach(m)
    try:
        yield
    finally:
        _active.pop(id(m), None)
        _depth.pop(id(m), None)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def write_stake_file(cfg, text):
    with open("synthetic-stake-distribution-%d-agents.csv" % cfg["n"], "w") as f:
        f.write(text)


def make(cfg):
    """Build a simulation from a scenario; keys that start with '_' are instructions for the harness. The simulation gets its own
    copies of the lists, unless "_share" is set."""
    args = {k: (list(v) if isinstance(v, list) and "_share" not in cfg else v) for k, v in cfg.items() if not k.startswith("_")}
    if "_stakes" in cfg:
        write_stake_file(cfg, cfg["_stakes"])
    with quiet():
        return sim.Simulation(**args)


def run(cfg, monitors=(), model=None):
    """Run a scenario to its end under the given monitors; returns the model."""
    m = make(cfg) if model is None else model
    with watched(m, monitors), quiet():
        m.run_model()
        for mon in monitors:
            mon.finish(m)
    return m


def manual_run(m, monitors=(), limit=10 ** 6):
    with watched(m, monitors), quiet():
        while m.running and limit > 0:
            m.step()
            limit -= 1
        for mon in monitors:
            mon.finish(m)
    return m
