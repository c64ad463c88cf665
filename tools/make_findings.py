#!/usr/bin/env python3
"""Writes known-findings.json."""
import json
import os

FIXED = [
    ("C14", "a06881a", "the same seed gave different runs: all simulations of a process shared one random generator, and the reported seed was not always the one in use"),
    ("C01", "33539ba", "with inactive stake, the last agent received the inactive stake as a 'rounding error'"),
    ("C12", "1f5c5fb", "idle rounds of one phase counted towards the equilibrium of the next one"),
    ("C04", "762afb7", "after a phase change that increases k, the rankings had no position k (IndexError)"),
    ("C13", "ae1a818", "with known inactive stake, k was only adjusted in the first phase"),
    ("C06", "8a49266", "reward scheme 3 could not be instantiated"),
    ("C02", "5537b23", "delegations that changed between the draft and the execution of a pool update were lost (simultaneous orders)"),
    ("C18", "fb509bb", "the aggregate row of a run that reached max_iterations did not describe its final state"),
    ("C19", "ef2d02a", "parallel executions wrote the header several times to a shared file"),
    ("C17", "da9966e", "two executions could get the same serial number (read and write of the counter were not atomic)"),
    ("C21", "e98fce4", "the interactive visualisation failed to start (undefined name)"),
    ("C20", "c7acc7e", "nan and infinite values were accepted on the command line"),
    ("C20", "c527463", "iterations_after_convergence accepted negative numbers and 0"),
    ("C18", "5f08c99", "batch runs refused reward scheme 4"),
    ("C01", "afafe43", "only the first value of each line of a stake file was read"),
    ("C10", "d809384", "ZeroDivisionError when considering to operate a pool without stake"),
    ("C08", "0703e03", "empty ranking positions counted as pools in the non-myopic stake (AttributeError)"),
    ("C01", "15cfd57", "the rounding correction could make the last agent's stake negative"),
    ("C15", "dcc5e60", "pledge rate and homogeneity failed for pools without stake"),
    ("C24", "b249774", "run_model after individual steps gave ids of existing pools to new pools"),
    ("C08", "f685aa9", "ZeroDivisionError when considering to delegate to a pool without stake"),
    ("C12", "6a4a1a3", "a run whose new phase lowered max_iterations below the current round never wrote its results"),
    ("C15", "bb5162b", "the minimum aggregate pledge was up to 11% off, as the solver stopped within 5% of the optimum and accepted fractions of pools"),
    ("C16", "fdbf58f", "simulation-object.pkl of a run that ends with pools could not be loaded (AttributeError: 'Simulation' object has "
     "no attribute 'reward_scheme')"),
    ("C20", "3f2b93f", "an inactive stake fraction of 1 was accepted and failed with ZeroDivisionError after the output folder had been created"),
    ("C15", "8644a6c", "the minimum aggregate pledge was up to 14% off for 9 or more pools, as the solver stopped soon after its first solution"),
    ("C21", "afb3044", "two of the three charts of the interactive view stayed empty, as the series they show were not collected"),
    ("C21", "7e64bb3", "after the stop button the page still requested a step, and stop followed by start doubled the speed of the run"),
    ("C21", "4941188", "a reset while a step was being answered left the old run's answer on the page (in the charts of the new run)"),
    ("C21", "afc8585", "the interactive view offered an inactive stake fraction of 1, with which a new run failed with ZeroDivisionError"),
    ("C26", "4409e09", "batch runs used an absolute utility threshold of 0 instead of the documented default of 1e-9"),
    ("C26", "7ae6c4b", "batch runs ignored the agent profile weights they were given"),
    ("C27", "7375fee", "batch runs failed to draw the heatmaps if a parameter value was given twice"),
    ("C27", "21b54a9", "the heatmaps labelled all values below 5e-5 as 0.0"),
    ("C18", "e9b9ef5", "the results that custom_batch_run returns numbered every iteration of a combination 0, as they were counted per seed"),
    ("C26", "c1168af", "batches with values of many digits for many options failed with OSError (file name too long)"),
]
findings = [{
    "property": "C15", "status": "open",
    "key": "average saturation rate with a pool whose saturation threshold is 0",
    "what": "the metric 'Average saturation rate' fails with ZeroDivisionError under reward scheme 4 when a pool's saturation threshold "
            "is 0 (e.g. a phase with a0 = 0, while pools exist)",
    "job": {"kind": "zero-threshold", "cfg": {
        "n": 12, "k": 3, "a0": 0, "stake_distr_source": "flat", "agent_profile_distr": [1, 0, 0],
        "inactive_stake_fraction": 0, "inactive_stake_fraction_known": False, "relative_utility_threshold": 0,
        "absolute_utility_threshold": 1e-9, "seed": 7, "pareto_param": 2.0, "max_iterations": 80, "cost_min": 1e-5,
        "cost_max": 1e-4, "extra_pool_cost_fraction": 0.4, "agent_activation_order": "sequential",
        "iterations_after_convergence": 2, "reward_scheme": 4, "execution_id": "x", "generate_graphs": False,
        "metrics": [1, 8]}},
}, {
    "property": "C15", "status": "open",
    "key": "minimum aggregate pledge of 4 or more pools above the minimum by less than 15%",
    "what": "the metric 'Min-aggregate pledge' can be several percent above the minimum if there are a few pools or more, "
            "as the solver (APOPT) does not always find the best set of pools",
    "job": {"kind": "min-aggregate", "pools": [
        [0.0279, 0.0279], [0.0889, 0.0889], [0.0257, 0.0257], [0.0248, 0.0248], [0.0374, 0.0374], [0.0309, 0.0309], [0.0382, 0.0382],
        [0.025, 0.025], [0.0479, 0.0479], [0.0369, 0.0369], [0.4329, 0.4329], [0.0561, 0.0561], [0.081, 0.081], [0.0464, 0.0464]]},
}]
for p, commit, what in FIXED:
    findings.append({"property": p, "status": "fixed", "key": "fixed " + commit, "what": what,
                     "line": "fixed: property=%s %s %s" % (p, commit, what)})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json"), "w") as f:
    json.dump({"findings": findings}, f, indent=1)
    f.write("\n")
