#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note, technique, level="exploration", observe=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, level=level, observe=observe or []))


prop("C01", "The initial stake distribution is the one that was requested",
     "A simulation starts with the requested number of agents, whose relative stakes are non-negative and, together with the requested "
     "inactive fraction, sum to 1, so that the inactive share is in nobody's hands whether or not the system knows about it. The "
     "stakes have the proportions of the requested source: independent Pareto draws of the requested shape, equal stakes, the disparity "
     "distribution, or the values of the stake file (one per line or several per line): as they are if there are exactly enough, a random sample without repetition if there are more, "
     "and a sample with repetition if there are fewer. A file that does not exist is refused before anything is simulated.",
     ["inputs", "configurations"], "all numbers of agents, stake sources and files, scales, inactive fractions and seeds",
     "test_sim checks two or three fixed populations; file parsing, scales, rounding and the inactive fraction are never varied.",
     ["logic/sim.py", "logic/helper.py"],
     [("normalisation", "logic/sim.py normalize_agent_stake"), ("sources", "logic/helper.py generate_stake_distr_*, read_stake_distr_from_file")],
     "Held on every generated initial state; trusts the stake file format described in the documentation.",
     "runtime monitor: initial-state oracle (conservation, proportions against the source, KS test of the Pareto tail)")

prop("C02", "Pools, delegators and agents agree on every stake at all times",
     "After every single move of every round, a pool's stake equals its pledge plus the delegations it counts, each of these is "
     "a delegation that the delegator is making at that moment, and every delegation that an agent is making is counted by a pool that exists. "
     "Every pool belongs to exactly one owner who operates it and never delegates to it, and private pools have no delegators.",
     ["histories", "schedules", "configurations"], "all runs: every activation order, reward scheme, profile mix, phase change and round, after every move",
     "The tests apply one or two hand-made moves; disagreement needs sequences of moves (closing, shrinking, simultaneous moves) to appear.",
     ["logic/stakeholder.py", "logic/pool.py", "logic/strategy.py", "logic/sim.py"],
     [("moves are applied", "logic/stakeholder.py execute_strategy"), ("pool update", "logic/pool.py update_delegation")],
     "Held after every observed move (every 4th one in systems of more than 45 agents).", "runtime monitor: double-entry ledger checked after every agent move")

prop("C03", "Stake is conserved: nobody uses more stake than they own",
     "At any point of a run, what an agent has pledged to their pools plus what they have delegated is at most their own stake, "
     "and no pledge or delegation is negative. The stakes of all pools together equal what agents have committed and never exceed the active "
     "stake, and the stake and cost of an agent never change; abstainers commit nothing.",
     ["histories", "schedules", "configurations"], "all runs, after every move",
     "Unit tests look at single allocations of single agents; double use of stake comes from histories of moves and pending moves.",
     ["logic/stakeholder.py", "logic/stakeholder_profiles.py", "logic/pool.py"],
     [("allocation", "logic/stakeholder.py determine_stake_allocations / remove_delegations"), ("pledging", "logic/helper.py calculate_pledge_per_pool")],
     "Held after every observed move.", "runtime monitor: per-agent and global conservation of stake after every move")

prop("C04", "Both rankings hold exactly the live pools in the right order",
     "At any point of a run, the long-term and the myopic ranking contain each existing pool exactly once and nothing else, and they are long "
     "enough to look up index k. The long-term ranking is by desirability, then potential profit, then age, "
     "and the myopic one is by the desirability at the current stake, then age, both under the parameters currently in force.",
     ["histories", "configurations", "schedules"], "all runs, after every move and phase change",
     "A sorted container silently breaks when an element changes in place or a parameter of its key changes; tests rank a few static pools.",
     ["logic/sim.py", "logic/stakeholder.py", "logic/pool.py", "logic/helper.py"],
     [("ranking keys", "logic/helper.py pool_comparison_key / pool_comparison_key_myopic"), ("re-ranking", "logic/sim.py change_phase; logic/stakeholder.py")],
     "Held after every observed move; scores are recomputed by an independent implementation of the reward formulas.",
     "runtime monitor: ranking oracle with independent recomputation of the scores")

prop("C05", "Pool potential profit and desirability never go stale",
     "At any point of a run, each pool's recorded potential profit is the profit it would make if it was saturated, for its current pledge and cost "
     "under the reward scheme, saturation threshold and pledge influence of the current phase. Its recorded desirability follows from that profit and its "
     "current margin (the part left to delegators, and 0 for pools that make no profit), and its margin lies between 0 and 1.",
     ["histories", "configurations"], "all runs, all reward schemes and phase changes, after every move",
     "Tests compute the formulas once for literals; staleness appears only when pledge, cost, margin or the system's parameters change later.",
     ["logic/pool.py", "logic/helper.py", "logic/sim.py"],
     [("recomputation", "logic/pool.py set_profit / set_desirability; logic/sim.py change_phase")],
     "Held after every observed move.", "runtime monitor: cached values compared with an independent reference after every move")

prop("C06", "Reward schemes follow their published formulas and laws",
     "For every pledge, stake, number of pools k and pledge influence, the rewards that a pool gets under each of the five reward schemes equal the published "
     "formula, where pledge and stake count up to the saturation threshold of that scheme (the inverse of k, or what the pledge supports if that is less). "
     "While its stake is at least its pledge, a pool never gets more than the smaller of its stake and the share 1/k of the total, in all schemes but that with the curved pledge benefit it never gets less than "
     "nothing and more stake never lowers its rewards, in the simplified, flat and CIP-50 schemes neither does more pledge, and stake above the saturation threshold changes nothing. Without pledge influence (a0 = 0) the pledge makes "
     "no difference except in CIP-50. The rewards of all pools together never exceed the total. Changing k changes the saturation threshold accordingly, and k = 0 is refused.",
     ["inputs", "configurations", "histories"], "all schemes, parameters (also after changing them) and pledge/stake values including the boundaries",
     "The tests compare about ten literal values, one scheme is untested in batch, and no parameter is ever changed after construction.",
     ["logic/reward_schemes.py"], [("formulas", "logic/reward_schemes.py calculate_pool_reward of each class")],
     "Held on every evaluated point and on every pool of the audited runs.", "runtime monitor: differential oracle over random and boundary points, plus audit of live pools")

prop("C07", "Pool rewards are split fairly and completely among members",
     "A pool that makes a profit gives the operator the margin plus the share for the pledge, and each delegator the share for their delegation of what is left, so that the "
     "members' shares add up exactly to the profit. In a pool that makes none, the operator bears the loss alone and delegators get nothing. A delegator never loses, and a larger "
     "margin never makes a delegator better off or the operator worse off.",
     ["inputs", "configurations"], "all pools: margins, costs, pledges, delegations, reward schemes",
     "The tests check a handful of literal pools, never the sum over members, nor repeated evaluation after parameters change.",
     ["logic/helper.py"], [("utilities", "logic/helper.py calculate_operator_utility_from_pool / calculate_delegator_utility_from_pool")],
     "Held on every evaluated pool.", "runtime monitor: conservation oracle over generated and live pools")

prop("C08", "Agents move exactly when a better option exceeds the thresholds",
     "An agent changes strategy only if the utility they expect of the new one is at least that of their current strategy raised by the relative and the absolute "
     "threshold, and they do not stay where they are if an option that is open to them exceeds this. Of delegating and operating pools they choose the one that promises more; utilities are "
     "expected at the stake a pool is heading for if the agent is non-myopic and at the current stake if the agent is myopic.",
     ["histories", "configurations", "schedules"], "all decisions of all agents in all runs",
     "Tests drive one agent through a few fixed states; the rule quantifies over every state that a run can reach.",
     ["logic/stakeholder.py", "logic/stakeholder_profiles.py"],
     [("decision", "logic/stakeholder.py update_strategy / choose_pool_strategy"), ("expected utilities", "logic/stakeholder.py find_delegation_move / find_operator_move; logic/helper.py")],
     "Each decision is compared with a reference planner written from the documentation; decisions within rounding of a tie are skipped (counted).",
     "runtime monitor: every decision checked against a reference planner")

prop("C09", "Delegated stake fills the best-ranked pools that have room",
     "When an agent delegates, all their available stake goes to other agents' public pools, in the order of the ranking that fits the agent's profile, filling each up to its saturation "
     "threshold before continuing with the next; if all of them are full, the rest goes to the best-ranked pool. The agent's own delegations do not count as "
     "taking up room, and an operator who cannot pledge all their stake delegates what is left in the same way.",
     ["histories", "configurations", "schedules"], "all delegation decisions in all runs",
     "Tests check a few hand-made pool lists; the combination of saturation, ties, own delegations and closing pools is not reached.",
     ["logic/stakeholder_profiles.py", "logic/stakeholder.py"], [("allocation", "logic/stakeholder.py determine_stake_allocations / find_delegation_move / find_delegation_for_operator")],
     "Each delegation is compared with a greedy reference allocation; near-ties of the ranking are skipped (counted).",
     "runtime monitor: allocations checked against a greedy reference")

prop("C10", "Pools are opened, kept and priced by the operation rules",
     "The pools of an operator share the operator's stake evenly as pledge (up to saturation), have the cost of operating that number of pools each (the first at "
     "full cost, the others at the configured fraction), and are private exactly if their pledge saturates them. An operator who keeps some pools keeps the best-ranked ones, never "
     "replaces one they could have kept, and never has more pools than k. The number of pools is found by bisection towards higher expected utility, and each "
     "margin is the highest one at which the pool still ranks above the pools it has to beat to be among the best k.",
     ["histories", "configurations", "schedules"], "all pool-operation decisions in all runs",
     "Tests fix one agent and one or two pools; the search over pool counts, closings and margin wars need real histories.",
     ["logic/stakeholder.py", "logic/stakeholder_profiles.py", "logic/helper.py"],
     [("operation plan", "logic/stakeholder.py choose_pool_strategy / determine_pools_to_keep / find_operator_move"), ("margins", "logic/stakeholder_profiles.py calculate_margins_and_utility; logic/helper.py calculate_suitable_margin"), ("pledge", "logic/helper.py calculate_pledge_per_pool")],
     "Each operator move is compared with a reference planner; near-ties are skipped (counted).", "runtime monitor: operator moves checked against a reference planner")

prop("C11", "Every round activates every agent exactly once in the set order",
     "In each round each agent decides once and has their move applied once. In random and sequential order a move takes effect before the next agent decides (sequential: always by agent id; random: a new order each "
     "round); in simultaneous order all agents decide before any move takes effect; in semi-simultaneous order agents decide together in groups of five (the last one possibly smaller), whose moves take effect before the next group "
     "decides.",
     ["schedules", "configurations"], "all rounds, activation orders and numbers of agents",
     "The existing tests never look at the order of activations, and the number of agents is always a multiple of the group size.",
     ["logic/activations.py", "logic/sim.py"], [("schedulers", "logic/activations.py; the scheduler table in logic/sim.py")],
     "Held in every observed round.", "runtime monitor: trace checker over decide/apply events")

prop("C12", "A run ends at equilibrium or at the round limit, and says which",
     "A phase reaches equilibrium exactly when no agent has changed strategy for the configured number of consecutive rounds of that phase, and the recorded equilibrium round is the "
     "last one before these. The run ends with the equilibrium of its last phase or when the round limit is reached, whichever comes first, and reports "
     "equilibrium only in the first case. It always ends: no round takes forever.",
     ["histories", "configurations", "schedules"], "all runs: thresholds, orders, phases, round limits, numbers of idle rounds required",
     "Tests run two or three short simulations; off-by-one errors need specific lengths, phases and oscillating systems.",
     ["logic/sim.py"], [("idle rounds", "logic/sim.py step / has_converged / run_model")],
     "Every round of every run is watched from outside; hangs are found by a CPU-time watchdog.", "runtime monitor: convergence automaton over observed moves, hang watchdog")

prop("C13", "Parameters change exactly at phase boundaries, as listed",
     "A parameter with several values takes the next value when the current phase reaches equilibrium and at no other time, and keeps its last one once its list is exhausted; all other "
     "parameters stay as given. Where inactive stake is known to the system, the target number of pools of each phase is raised by the inactive fraction and the saturation threshold follows from it. "
     "The change itself moves no stake and closes no pool, the new phase starts with no idle rounds on its account, and the round of the change is recorded.",
     ["histories", "configurations"], "all runs with any combination of multi-phase parameters, known or unknown inactive stake",
     "One test has one parameter with two values; combinations, different list lengths and known inactive stake are not reached.",
     ["logic/sim.py", "logic/reward_schemes.py"], [("phases", "logic/sim.py change_phase / adjust_k_for_inactive_stake")],
     "Held in every observed round.", "runtime monitor: parameter trace compared with the configured lists")

prop("C14", "A run is determined by its arguments and its seed",
     "Two runs with the same arguments and seed go through exactly the same states, no matter what else runs in the same process before, between or at the same time, how hashing is randomised, which process runs "
     "it, and which results are collected. A run without a given seed records the one it used, and repeating the run with it gives the same run; so does using the recorded arguments file of a run with a given seed as input. Different seeds give "
     "different populations.",
     ["histories", "configurations", "schedules"], "all configurations, seeds, interleavings of several simulations in one process, processes",
     "No test compares two runs, let alone interleaved ones.",
     ["logic/sim.py", "logic/helper.py"], [("random generator", "logic/sim.py __init__"), ("distributions", "logic/helper.py")],
     "Trajectories (full state after every round) are compared bit by bit.", "runtime monitor: trajectory digests compared between repeated, interleaved and separate-process runs")

prop("C15", "Every collected metric is what its documentation says",
     "For each round of a run exactly one value of each requested metric is collected, and it equals the documented quantity for the state at the beginning of that round: counts, shares, pledge and stake statistics, "
     "cost and margin statistics, concentration indices, Nakamoto coefficient, splitter and homogeneity figures. In a system without pools the metrics of pools are zero (-1 for the Gini coefficients), and no metric fails on a reachable state.",
     ["histories", "inputs", "configurations"], "all metrics on all reachable states and on generated states",
     "Tests check a few metrics on one or two hand-made systems of two or three pools.",
     ["logic/model_reporters.py", "logic/sim.py"], [("reporters", "logic/model_reporters.py")],
     "Each metric is recomputed from the raw state by an independent implementation; the linear-programming metric (minimum aggregate pledge) by brute force on small systems.",
     "runtime monitor: independent recomputation of all metrics every round")

prop("C16", "The files a run leaves behind describe that run",
     "When a run ends, its folder holds the arguments it was given, the initial state, and the final state: the pools and stakeholders files list each pool and each agent once with the values they really have at the end, the "
     "metrics file has one row per collected round with exactly the collected values, and the state descriptors and the row in the experiment tracker match the final state. The saved simulation object restores to "
     "the same state, and graphs are written exactly if requested.",
     ["histories", "configurations"], "all configurations, ways of ending and reward schemes",
     "No test opens an output file.",
     ["logic/sim.py", "logic/helper.py"], [("exports", "logic/sim.py wrap_up_execution and export_*")],
     "Every file of every observed run is parsed and compared with the live state.", "runtime monitor: offline checker of the output files against the live state")

prop("C17", "Every execution gets its own serial number and folder",
     "No two executions started from the same directory ever get the same serial number or the same output folder, whether they start one after the other, at the same time, or after one that was killed at any "
     "point; numbers increase. An execution that finds its folder taken stops rather than touching what is in there.",
     ["schedules", "crash_points", "histories"], "all interleavings of concurrent starts, a crash at any point of a start, any number of earlier executions",
     "The tests read and write the counter once, alone.",
     ["logic/helper.py", "logic/sim.py", "custom_batchrunner.py"], [("counter", "logic/helper.py next_seq_id (file lock)")],
     "Concurrent starts with random delays injected at executed lines, and a kill at every executed line of a start, each followed by new starts.",
     "runtime monitor: uniqueness checker under concurrent starts with injected delays and kills", "fault_enumeration")

prop("C18", "A batch runs every parameter combination exactly once, faithfully",
     "A batch execution runs each combination of the given parameter values exactly once per iteration, each in its own folder below that of the batch, whatever the number of processes. The aggregate results hold one "
     "row per run with its parameters and the values that the metrics have in its final state, which are those of the same simulation run alone.",
     ["configurations", "schedules"], "all sets of parameter lists, numbers of processes and iterations",
     "No test runs a batch.",
     ["batch-run.py", "custom_batchrunner.py", "logic/helper.py"], [("batch", "custom_batchrunner.py"), ("arguments", "batch-run.py")],
     "Whole batches are executed and audited against standalone runs.", "runtime monitor: offline checker of whole batches against standalone runs")

prop("C19", "Shared result files survive concurrent writers",
     "When any number of executions append to the same experiment tracker or results file at the same time, the file ends up with the header exactly once as its first line and one intact row per execution, with "
     "nothing lost, interleaved or overwritten, and earlier content unchanged.",
     ["schedules", "histories"], "all interleavings of concurrent writers, files that exist or not",
     "No test writes these files, let alone from two processes.",
     ["logic/helper.py", "custom_batchrunner.py", "logic/sim.py"], [("appending", "logic/helper.py write_to_csv (file lock)")],
     "Concurrent writers with random delays injected at executed lines.", "runtime monitor: exactly-once/intactness checker over files written concurrently with injected delays", "exploration")

prop("C20", "The command line runs what was asked or refuses it",
     "Each command-line option of the main program, given or not, reaches the simulation with exactly its value or documented default, single or (k, a0) with one value per phase; with input_from_file the arguments "
     "are those of the file, and nothing is executed without a readable one. Values outside the documented domain of an option (wrong type, non-finite, negative, out of range, unknown choice, too many or too few) are refused with a usage error before any file "
     "is written or simulation started.",
     ["inputs", "configurations"], "all options and combinations, valid and invalid values",
     "No test starts the program with arguments.",
     ["main.py", "logic/helper.py", "batch-run.py"], [("options", "logic/helper.py add_script_arguments and value types")],
     "Arguments are generated from the documented domains; both the parsed values and real executions are observed.", "runtime monitor: recorder in place of the simulation, plus real executions of the programs")

prop("C21", "The interactive view shows the state of the running model",
     "Each chart of the interactive visualisation gets, in answer to a request for a step, exactly the state that the model recorded last (at the beginning of the round of that step, or the final state): the value of each "
     "line's metric, the stake that each agent holds in pools, or one bubble per pool with its owner, stake, owner's stake and margin; before the first step there is nothing to show. Each request for a step makes the model do one step, a reset starts a new run "
     "with the parameters chosen so far, and a run that has ended answers with the end. The page shows these answers in order, one per step, for the current run only, and its step, start/stop, reset and parameter controls send what was asked.",
     ["histories", "inputs"], "all sequences of browser requests and user actions, model states and parameter settings",
     "No test imports the visualisation.",
     ["interactiveViz/runViz.py", "interactiveViz/myModularVisualization.py", "interactiveViz/bubbleChartModule.py", "interactiveViz/stackedChartModule.py", "interactiveViz/myChartModule.py",
      "interactiveViz/myChartModule.js", "interactiveViz/stackedChartModule.js", "interactiveViz/bubbleChartModule.js", "interactiveViz/templates/js/myruncontrol.js"],
     [("server", "interactiveViz/myModularVisualization.py and runViz.py"), ("charts", "interactiveViz/*ChartModule.py and .js"), ("controls", "interactiveViz/templates/js/myruncontrol.js")],
     "A scripted client and a scripted page (the repository's JavaScript in node, with the document and the chart library stubbed) talk to the real server over a socket; not a real browser.",
     "runtime monitor: protocol checker on the real server's messages and on what the page's scripts show")

prop("C22", "The population has the requested profiles and costs",
     "The agents' costs lie within the requested bounds and spread evenly over them, profiles are drawn independently with the requested relative weights (a weight of 0 means none), and agents have distinct consecutive ids. "
     "Abstainers never operate a pool, never delegate and never change, whatever happens in the run.",
     ["inputs", "configurations", "histories"], "all numbers of agents, bounds, weights and seeds",
     "Tests use the default population only.",
     ["logic/sim.py", "logic/helper.py", "logic/stakeholder_profiles.py"], [("population", "logic/sim.py initialize_agents; logic/helper.py generate_cost_distr_unfrm")],
     "Exact bounds; proportions by statistical tests with a false-alarm probability below 1e-9 per run.", "runtime monitor: population oracle with statistical tests, abstainer watch")

prop("C23", "Observing or considering a move changes nothing",
     "Collecting metrics, exporting results, printing the status and, for an agent that ends up keeping their strategy, working out the alternatives leave all pools, rankings, agents and the random "
     "generator as they were. In simultaneous orders a decision that has not taken effect yet leaves pools, delegations and rankings as they were.",
     ["histories", "configurations", "schedules"], "all rounds of all runs, all metrics, all decisions",
     "Tests look at results, not at side effects; planning works on the real pools, so that a forgotten copy or rollback shows only in later rounds.",
     ["logic/stakeholder.py", "logic/stakeholder_profiles.py", "logic/model_reporters.py", "logic/sim.py"],
     [("copies and rollbacks", "logic/stakeholder.py, logic/stakeholder_profiles.py (copies of pools, pool id sequence)")],
     "State snapshots around each observation and decision; pool stakes may drift by rounding (1e-12).", "runtime monitor: before/after snapshots around observations and decisions")

prop("C24", "Pools have a clean life cycle and agents change only their own",
     "Every pool gets an id that no pool of the run had before, starts with its pledge as its only stake, has the same owner for life, and never returns once closed. An agent's move "
     "opens, changes and closes only that agent's own pools and changes only that agent's own delegations, except that delegations to a pool that closes or becomes private are released in full.",
     ["histories", "schedules", "configurations"], "all moves of all agents in all runs, also when steps and whole runs are mixed",
     "Tests never look at what a move leaves untouched, nor at ids over time.",
     ["logic/stakeholder.py", "logic/sim.py", "logic/pool.py"], [("ids", "logic/sim.py get_next_pool_id"), ("closing", "logic/stakeholder.py close_pool")],
     "Held for every observed move.", "runtime monitor: frame checker comparing the state before and after each move")

prop("C25", "A declared equilibrium is one: nobody gains by deviating",
     "Whenever the system declares that a phase has reached equilibrium, no agent, given the pools and delegations at that point, has an option (delegating elsewhere, opening, closing, splitting or re-pricing pools) that by the "
     "agent's own expectations exceeds their current strategy by more than the thresholds. This holds for every activation order and profile mix.",
     ["histories", "configurations"], "all equilibria of all runs",
     "Tests assert that some runs converge, never that the final state is stable.",
     ["logic/sim.py", "logic/stakeholder.py"], [("idle detection", "logic/sim.py step / has_converged; logic/stakeholder.py update_strategy")],
     "Every agent's options are recomputed at each declared equilibrium by the reference planner; near-ties are skipped (counted).", "runtime monitor: deviation check by a reference planner at every declared equilibrium")

prop("C26", "The batch command line reaches every run of the batch or is refused",
     "Each option of the batch program reaches every run of the batch: an option that takes several values varies over exactly those that were given, one with a single value (and the "
     "agent profile weights) has exactly that value in all runs, and one that is not given has its documented default (without a seed, one random seed for all runs). The runs are "
     "below the folder with the given identifier. Values of a wrong type, unknown choices or options and several values where one is expected are refused with a usage error before "
     "any file is written or simulation started.",
     ["inputs"], "all command lines of batch-run.py: all options, numbers of values, spellings and orders",
     "No test calls the batch program.",
     ["batch-run.py", "custom_batchrunner.py"], [("options", "batch-run.py"), ("combinations", "custom_batchrunner.py _make_model_kwargs")],
     "Held for every generated command line; the default of k is left out, as the program, its help and the documentation name three different ones.",
     "runtime monitor: recorder of the arguments that reach the runs, against the documented option table")

prop("C27", "The graphs of a batch show its results",
     "After a batch run there is, for each parameter that was given several values and each metric, exactly one graph, which has one point per run with a non-negative value of the "
     "metric, at the parameter's value and the metric's value in the final state of that run. If exactly two parameters vary there is also one heatmap per metric, which has one cell per combination of their "
     "values, in the row and column labelled with them, and shows the metric's value there; otherwise there is none. The graphs are in the folder of the batch and none replaces another.",
     ["inputs", "configurations"], "all batches: parameters, values (also tiny, repeated and in any order) and metrics",
     "No test plots anything.",
     ["batch-run.py", "logic/helper.py"], [("graphs", "logic/helper.py plot_aggregate_data, plot_aggregate_data_heatmap"), ("choice of graphs", "batch-run.py")],
     "Held for every generated batch; the figures are taken apart in memory when they are saved, and painted in some of the batches.",
     "runtime monitor: recorder of the drawn figures, against the aggregate results of the same batch")

HAVE = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "lib", "props")) if f.startswith("c")}
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": None}}) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import mesa, numpy, sortedcontainers, pandas'",
    "checks": [{
        "property": p["pid"], "quick_cmd": "/opt/venv/bin/python lib/check.py %s" % p["pid"],
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python lib/check.py %s" % p["pid"],
        "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["technique"], "level": p["level"],
        "level_note": p["level_note"]} for p in P if p["pid"] in HAVE],
    "not_applicable": [{"property": p["pid"], "reason": "no check yet"} for p in P if p["pid"] not in HAVE],
    "notes": "Monitors are attached from outside (no hooks in the repository). VERIF_BUDGET (seconds) bounds the generation of "
             "scenarios, VERIF_ALL=1 does not stop at the first violation; lib/check.py <id> --replay <file> repeats one scenario.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(manifest["checks"]), "checks")
