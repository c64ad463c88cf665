From a06881a89c4ef90efb13785e98760196f51b1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 01/36] fix: derive the model's randomness from the reported
 seed

With no seed argument (or with input_from_file) Mesa's shared generator was
seeded from the OS, so the reported seed did not reproduce the run, and a second
simulation in the same process replaced the generator of the first one.
---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..4265489 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,9 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        # use a generator of our own (not the one that Mesa shares among all models), so that the run is determined by the
+        # seed that gets reported, however that seed was chosen (argument, file or at random)
+        self.random = random.Random(seed)
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 33539ba911304615c8c62e9d8b48ecd44b7f71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 02/36] fix: keep the inactive stake out of the agents' hands

Normalisation treated the inactive fraction as a floating point error and gave
all of it to the last agent, so the active stake was always 1.
---
 logic/sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 4265489..ca49546 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -125,7 +125,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -178,18 +178,19 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any of the agents
         """
-        norm_total_stake = 0
+        norm_total_stake = inactive_stake_fraction
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
         if norm_total_stake != 1:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
+            # sure that the sum of all agent stakes (plus the inactive stake) is equal to 1
             flt_error = 1 - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-- 
2.43.0


From 1f5c5fbce0d1f69bab7bdc6473e62defa8eff254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 03/36] fix: count idle steps towards convergence separately in
 each phase

The idle steps of the previous phase were still counted after a parameter change,
so one idle step was enough to declare an equilibrium of the new phase, dated
before the change that started it.
---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index ca49546..65d6ca4 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -415,6 +415,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # a new phase starts, so the steps towards (its) convergence are reset
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From 762afb7b6f39b79a90812c68642943e3e4b4f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 04/36] fix: extend the pool rankings when a phase change
 increases k

Rankings were padded for the first value of k only, so a run with e.g.
--k 5 30 failed with an IndexError after the first phase.
---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 65d6ca4..cb7b0a2 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -427,6 +427,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        # agents look up the k-th position of the rankings, so these need to be long enough in case k has increased
+        missing_positions = self.reward_scheme.k + 1 - len(self.pool_rankings)
+        self.pool_rankings.update([None] * missing_positions)
+        self.pool_rankings_myopic.update([None] * missing_positions)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From ae1a818826b6f830bf8e27989b86e02c30bdaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 05/36] fix: adjust k for known inactive stake in every phase

Only the first value of k was inflated; after a phase change the system fell
back to the unadjusted value.
---
 logic/sim.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index cb7b0a2..79d03cd 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -93,10 +93,9 @@ class Simulation(Model):
 
         self.total_phases = total_phases
         self.multi_phase_params = multi_phase_params
-        if args['inactive_stake_fraction_known']:
-            # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
-            # to make it possible to end up with the original desired number of pools
-            self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+        # keep the inactive stake fraction only if the system is aware of it
+        self.known_inactive_stake_fraction = args['inactive_stake_fraction'] if args['inactive_stake_fraction_known'] else 0
+        self.adjust_k_for_inactive_stake()
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
@@ -148,6 +147,12 @@ class Simulation(Model):
         self.equilibrium_steps = []
         self.pivot_steps = []
 
+    def adjust_k_for_inactive_stake(self):
+        if self.known_inactive_stake_fraction > 0:
+            # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
+            # to make it possible to end up with the original desired number of pools
+            self.reward_scheme.k = self.reward_scheme.k / (1 - self.known_inactive_stake_fraction)
+
     def initialize_agents(self, agent_profile_distr, cost_min, cost_max, pareto_param, stake_distr_source, seed):
         if stake_distr_source == 'file':
             stake_distribution = hlp.read_stake_distr_from_file(num_agents=self.n)
@@ -426,6 +431,8 @@ class Simulation(Model):
                 if key in vars(self.reward_scheme) or '_' + key in vars(self.reward_scheme):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
+                if key == 'k':
+                    self.adjust_k_for_inactive_stake()
                 change_occured = True
         # agents look up the k-th position of the rankings, so these need to be long enough in case k has increased
         missing_positions = self.reward_scheme.k + 1 - len(self.pool_rankings)
-- 
2.43.0


From 8a49266a0fe5c82cbe5380ca4492a2e45dc5a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 06/36] fix: make reward scheme 3 (curve pledge benefit) usable

The simulation creates every reward scheme from k and a0 only, so choosing
option 3 failed with a TypeError.
---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..0dbb7a1 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):  # default values as proposed in CIP-7
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From 5537b233d10d9564047d61356a7da1e42da64120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 07/36] fix: do not lose delegations that change between a pool
 update's draft and its execution

Under (semi)simultaneous activation an operator replaced its live pool with a copy
taken when its strategy was drafted, undoing the moves other agents made in the
meantime; stakes no longer added up and most such runs ended with a KeyError.
---
 logic/stakeholder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..eb6dd7e 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,12 +351,16 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        old_pool = self.strategy.owned_pools[pool_id]
+        # the delegations of the pool may have changed since the strategy was drafted (in case of (semi)simultaneous
+        # activation), so make sure that the updated pool has the current ones
+        updated_pool.stake = old_pool.stake - (old_pool.pledge - updated_pool.pledge)
+        updated_pool.delegators = old_pool.delegators.copy()
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-        old_pool = self.strategy.owned_pools[pool_id]
         self.model.pool_rankings.remove(old_pool)
         self.model.pool_rankings.add(updated_pool)
         self.model.pool_rankings_myopic.remove(old_pool)
-- 
2.43.0


From fb509bb30cc7194241c76a1dcda9eac1a1463258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 08/36] fix: report the final state in the aggregate results
 when max_iterations is reached

---
 custom_batchrunner.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..9707e37 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -181,9 +181,11 @@ def _model_run_func(
 
     data = []
 
-    steps = list(range(0, model.schedule.steps, data_collection_period))
-    if not steps or steps[-1] != model.schedule.steps - 1:
-        steps.append(model.schedule.steps - 1)
+    # one record per round, the last one of which describes the final state (also when max_iterations was reached)
+    num_records = max((len(values) for values in model.datacollector.model_vars.values()), default=0)
+    steps = list(range(0, num_records, data_collection_period))
+    if not steps or steps[-1] != num_records - 1:
+        steps.append(num_records - 1)
 
     for step in steps:
         model_data, all_agents_data = _collect_data(model, step)
@@ -198,7 +200,7 @@ def _model_run_func(
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
 
-            if step == model.schedule.steps - 1:
+            if step == num_records - 1:
                 # write end-of-run results to file
                 header = [key for key in stepdata[0].keys() if key not in fixed_params]
                 row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-- 
2.43.0


From ef2d02a4172d272aee5946fc99688384a3c000cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 09/36] fix: write a single header when parallel executions
 share a results file

---
 logic/helper.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..a1e7942 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -3,6 +3,7 @@ from numpy.random import default_rng
 import numpy as np
 from scipy import stats
 import csv
+import os
 import pathlib
 from math import floor, log10, fsum
 from functools import lru_cache
@@ -11,6 +12,10 @@ import matplotlib.pyplot as plt
 from matplotlib import ticker
 import seaborn as sns
 import argparse
+try:
+    import fcntl
+except ImportError:  # not available on Windows
+    fcntl = None
 
 from logic.stakeholder_profiles import PROFILE_MAPPING
 from logic.reward_schemes import RSS_MAPPING
@@ -354,8 +359,19 @@ def write_seq_id(seq, filename='sequence.dat'):
         f.write(str(seq))
 
 
+def lock_file(file):
+    """
+    Make other processes that also want to lock the file wait until this one closes it (only on systems that support it)
+    """
+    if fcntl is not None:
+        fcntl.flock(file, fcntl.LOCK_EX)
+
+
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
+        # executions may run in parallel, so make sure that only one of them finds the file empty and adds the header
+        lock_file(f)
+        f.seek(0, os.SEEK_END)
         writer = csv.writer(f)
         if f.tell() == 0:
             writer.writerow(header)
-- 
2.43.0


From da9966e1e0c0c6d0ee54a3c103c59dddfb602846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 10/36] fix: never give the same sequence number to two
 executions

---
 custom_batchrunner.py |  3 +--
 logic/helper.py       | 15 +++++++++++++++
 logic/sim.py          |  3 +--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 9707e37..2eafa29 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -57,8 +57,7 @@ def custom_batch_run(
         [description]
     """
 
-    seq_id = hlp.read_seq_id() + 1
-    hlp.write_seq_id(seq_id)
+    seq_id = hlp.next_seq_id()
     batch_run_id = str(seq_id) + '-' + batch_run_id
     path = pathlib.Path.cwd() / "output" / batch_run_id
     pathlib.Path(path).mkdir(parents=True)
diff --git a/logic/helper.py b/logic/helper.py
index a1e7942..8b8cb37 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -359,6 +359,21 @@ def write_seq_id(seq, filename='sequence.dat'):
         f.write(str(seq))
 
 
+def next_seq_id(filename='sequence.dat'):
+    """
+    Reserve the next sequence number. Executions that start in parallel never get the same one and an execution that is
+    interrupted meanwhile does not lose track of the numbers that have been given so far.
+    """
+    with open(filename, 'a'):
+        pass  # make sure that the file exists
+    with open(filename, 'r+') as f:
+        lock_file(f)
+        seq = int(f.read().strip() or 0) + 1
+        f.seek(0)
+        f.write(str(seq))
+    return seq
+
+
 def lock_file(file):
     """
     Make other processes that also want to lock the file wait until this one closes it (only on systems that support it)
diff --git a/logic/sim.py b/logic/sim.py
index 79d03cd..4eac8a5 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -50,8 +50,7 @@ class Simulation(Model):
 
         seq_id = args['seq_id']
         if seq_id == -1:
-            seq_id = hlp.read_seq_id() + 1
-            hlp.write_seq_id(seq_id)
+            seq_id = hlp.next_seq_id()
         self.seq_id = seq_id
 
         execution_id = args['execution_id']
-- 
2.43.0


From e98fce491d057f491058bf825a3815711d78a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 11/36] fix: let the interactive visualisation start

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 8b8cb37..67c857c 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -24,7 +24,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for run_viz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From c7acc7e2cc465059310cc5c4c474d71bb2406dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 12/36] fix: reject nan and infinite values in the command-line
 arguments

---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 67c857c..1074ed3 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -5,7 +5,7 @@ from scipy import stats
 import csv
 import os
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, inf
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -541,21 +541,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if not 0 < float_value < inf:
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if not 0 <= float_value < inf:
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From c52746388112ef712c15cb44f0063409bb7f2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 13/36] fix: require a natural number of iterations after
 convergence

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1074ed3..0741174 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -612,7 +612,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From 5f08c99fb5519cf32f02414e0d1a751e072740c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 14/36] fix: accept reward scheme 4 in batch runs

---
 batch-run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..dd06053 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -9,6 +9,7 @@ import numpy as np
 import logic.sim as sim
 import logic.helper as hlp
 from logic.model_reporters import ALL_MODEL_REPORTEERS
+from logic.reward_schemes import RSS_MAPPING
 
 if __name__ == "__main__":
     #multiprocessing.freeze_support()  # needed for multiprocessing to work on windows systems (comment out line to run on linux or mac / uncomment for windows) #todo is that still needed? if yes, detect os and act accordingly
@@ -44,7 +45,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(len(RSS_MAPPING)),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From afafe435209429a24c553268bdda6180a7b43d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 15/36] fix: read all the comma-separated values of a stake
 distribution file

---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 0741174..ba83b3d 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -36,13 +36,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend([float(value) for value in row if value.strip() != ''])
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend([float(value) for value in row if value.strip() != ''])
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From d8093846e4d37fe05898188e1e10f26b52d01f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 16/36] fix: calculate the utility of operating a pool that has
 no stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index ba83b3d..83ed1db 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -287,7 +287,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 0  # e.g. when the pledge is 0
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 0703e0312ca07a71397348790d397d89de1618b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 17/36] fix: ignore the empty positions of the rankings when
 calculating a pool's non-myopic stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 83ed1db..3e2b3e8 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -210,7 +210,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From 15cfd5767dc484e80380cb093ad815e3834e7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 18/36] fix: do not let the stake of the last agent become
 negative

---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 4eac8a5..2429c93 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -196,7 +196,7 @@ class Simulation(Model):
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
             # sure that the sum of all agent stakes (plus the inactive stake) is equal to 1
             flt_error = 1 - norm_total_stake
-            agent.stake += flt_error
+            agent.stake = max(agent.stake + flt_error, 0)
             norm_total_stake += flt_error
         return norm_total_stake
 
-- 
2.43.0


From dcc5e60da12544bb8ad563adf52341cb947bb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 19/36] fix: calculate the pledge rate and homogeneity of pools
 that have no stake

---
 logic/model_reporters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 5c14712..8204931 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -207,7 +207,7 @@ def get_pledge_rate(model):
         return 0
     total_active_stake = fsum([pool.stake for pool in pools])
     total_pledge = fsum([pool.pledge for pool in pools])
-    return total_pledge / total_active_stake
+    return total_pledge / total_active_stake if total_active_stake > 0 else 0
 
 
 def get_homogeneity_factor(model):
@@ -226,7 +226,7 @@ def get_homogeneity_factor(model):
     ideal_area = pool_count * max_stake
     actual_area = fsum(pool_stakes)
 
-    return actual_area / ideal_area
+    return actual_area / ideal_area if ideal_area > 0 else 0
 
 
 def get_iterations(model):
-- 
2.43.0


From b2497741bd722d13b709b91a5b1cac59ff39efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 20/36] fix: do not give the ids of existing pools to new ones
 when run_model follows individual steps

---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 2429c93..feadbbf 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -245,7 +245,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.schedule.steps <= self.max_iterations and self.running:
             self.step()
 
-- 
2.43.0


From f685aa98848ca283db4095ed5eb869d8b656bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 21/36] fix: calculate the utility of delegating to a pool that
 has no stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 3e2b3e8..3612560 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -295,7 +295,7 @@ def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, rewar
 # @lru_cache(maxsize=1024)
 def calculate_delegator_utility_from_pool(stake_allocation, pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = stake_allocation / pool_stake
+    stake_fraction = stake_allocation / pool_stake if pool_stake > 0 else 0
     return calculate_delegator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                 delegator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 6a4a1a35a9fa71d2f7d691ac3d89e5fea6aa4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 22/36] fix: end a run properly when a new phase lowers
 max_iterations below the current step

---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index feadbbf..ab7c45a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -245,7 +245,7 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        while self.schedule.steps <= self.max_iterations and self.running:
+        while self.running:  # step() stops the run, also when it has already done more than max_iterations steps
             self.step()
 
     def has_converged(self):
-- 
2.43.0


From bb5162bb2692772c2ab542c1fbbefefc19f173d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 23/36] fix: find the real minimum for the min-aggregate pledge
 metric

---
 logic/model_reporters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 8204931..3d4e434 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -185,6 +185,8 @@ def get_min_aggregate_pledge(model):
     g.Equation(g.sum([stakes[i] * x[i] for i in range(items)]) >= lower_bound)
     # Optimize with APOPT
     g.options.SOLVER = 1
+    # only accept integer solutions that are optimal (by default, the solver stops when it is within 5% of that)
+    g.solver_options = ['minlp_gap_tol 1e-9', 'minlp_integer_tol 1e-6']
 
     try:
         g.solve(disp=False)  # choose disp = True to print details while running
-- 
2.43.0


From fdbf58fc1de0b7c7a9fee20076bcfc5561a73b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 24/36] fix: make the saved model state loadable when it holds
 pools

The key of the myopic ranking was a method of the model, which is not restored yet when the ranking gets rebuilt.
---
 logic/helper.py | 12 ++++++++++++
 logic/sim.py    | 14 ++------------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 3612560..2820f17 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -525,6 +525,18 @@ def pool_comparison_key(pool):
     return -pool.desirability, -pool.potential_profit, pool.id
 
 
+def pool_comparison_key_myopic(pool, reward_scheme):
+    """
+    Sort pools based on their myopic desirability, so that the pool with the highest one is first
+    break ties with pool id
+    """
+    if pool is None:
+        return 0, 0, 0
+    current_profit = calculate_current_profit(pool.stake, pool.pledge, pool.cost, reward_scheme)
+    myopic_desirability = calculate_myopic_pool_desirability(pool.margin, current_profit)
+    return -myopic_desirability, pool.id
+
+
 def positive_int(value):
     int_value = int(value)
     if int_value <= 0:
diff --git a/logic/sim.py b/logic/sim.py
index ab7c45a..b0b901c 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import functools
 import time
 import pathlib
 import math
@@ -110,7 +111,7 @@ class Simulation(Model):
         self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1),
                                         key=hlp.pool_comparison_key)  # all pools ranked from best to worst non-myopically
         self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1),
-                                               key=self.pool_comparison_key_myopic)  # all pools ranked from best to worst myopically
+                                               key=functools.partial(hlp.pool_comparison_key_myopic, reward_scheme=self.reward_scheme))  # all pools ranked from best to worst myopically
 
         total_stake = self.initialize_agents(
             args['agent_profile_distr'], args['cost_min'], args['cost_max'], args['pareto_param'],
@@ -455,14 +456,3 @@ class Simulation(Model):
         self.save_model_state_pkl()
         if self.generate_graphs:
             self.export_graphs()
-
-    def pool_comparison_key_myopic(self, pool):
-        if pool is None:
-            return 0, 0, 0
-        # sort pools based on their myopic desirability
-        # break ties with pool id
-        current_profit = hlp.calculate_current_profit(
-            pool.stake, pool.pledge, pool.cost, self.reward_scheme
-        )
-        myopic_desirability = hlp.calculate_myopic_pool_desirability(pool.margin, current_profit)
-        return -myopic_desirability, pool.id
-- 
2.43.0


From 3f2b93feee81c6ffff80b02b5a69a0a29bd50365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 25/36] fix: refuse an inactive stake fraction of 1, which left
 no stake to divide by

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 2820f17..21d97d4 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -567,7 +567,7 @@ def non_negative_float(value):
 
 def fraction(value):
     float_value = float(value)
-    if not 0 <= float_value <= 1:
+    if not 0 <= float_value < 1:  # the simulation divides by the fraction that remains
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From afb3044f0c334615f592dff1b15c8a379fc42c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 26/36] fix: collect the series that the charts of the
 interactive visualisation show

---
 interactiveViz/runViz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..46f1190 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,8 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    "metrics": [1, 3, 21, 27]  # the series that the charts show
 }
 
 # todo add option for different distributions
-- 
2.43.0


From afc858570c3335e4683a67623f1a08d8dbe99efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 27/36] fix: do not offer an inactive stake fraction of 1 in
 the interactive visualisation

---
 interactiveViz/runViz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 46f1190..2a2ba1c 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -48,7 +48,7 @@ model_params = {
         "number", "Random seed", 42, description="Seed for reproducibility"
     ),
     "inactive_stake_fraction": UserSettableParameter(
-        "slider", "Inactive stake fraction", 0.1, 0.0, 1.0, 0.01,
+        "slider", "Inactive stake fraction", 0.1, 0.0, 0.99, 0.01,
         description="The percentage of agents that will abstain from the game in this run."
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
-- 
2.43.0


From 8644a6cf0fb210efb8562aa7330b479e2b346b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 28/36] fix: don't give up the search for the min-aggregate
 pledge soon after the first solution

---
 logic/model_reporters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 3d4e434..e5a6020 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -185,8 +185,9 @@ def get_min_aggregate_pledge(model):
     g.Equation(g.sum([stakes[i] * x[i] for i in range(items)]) >= lower_bound)
     # Optimize with APOPT
     g.options.SOLVER = 1
-    # only accept integer solutions that are optimal (by default, the solver stops when it is within 5% of that)
-    g.solver_options = ['minlp_gap_tol 1e-9', 'minlp_integer_tol 1e-6']
+    # only accept integer solutions that are optimal (by default, the solver stops when it is within 5% of that, or soon
+    # after it has found a first solution)
+    g.solver_options = ['minlp_gap_tol 1e-9', 'minlp_integer_tol 1e-6', 'minlp_max_iter_with_int_sol 5000']
 
     try:
         g.solve(disp=False)  # choose disp = True to print details while running
-- 
2.43.0


From 7e64bb3e9347f57558aa431627b4e595ba444fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 29/36] fix: do not make further or extra steps on the page
 after the model was stopped

---
 interactiveViz/templates/js/myruncontrol.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interactiveViz/templates/js/myruncontrol.js b/interactiveViz/templates/js/myruncontrol.js
index b9d1bf2..4847e76 100644
--- a/interactiveViz/templates/js/myruncontrol.js
+++ b/interactiveViz/templates/js/myruncontrol.js
@@ -41,6 +41,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     /** Stop the model */
     this.stop = function stop() {
         this.running = false;
+        clearTimeout(this.timeout);
         startModelButton.firstElementChild.innerText = "Start";
     }
 
@@ -83,6 +84,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     this.render = function render(data) {
         vizElements.forEach((element, index) => element.render(data[index]))
         if (this.running) {
+            clearTimeout(this.timeout);
             this.timeout = setTimeout(() => this.step(), 1000 / this.fps);
         }
     }
-- 
2.43.0


From 494118860a140e49aa6e08052ff6f5d3b3bac09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 30/36] fix: do not show answers to requests that were sent
 before a reset of the page

---
 interactiveViz/templates/js/myruncontrol.js | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/interactiveViz/templates/js/myruncontrol.js b/interactiveViz/templates/js/myruncontrol.js
index 4847e76..9cc50ca 100644
--- a/interactiveViz/templates/js/myruncontrol.js
+++ b/interactiveViz/templates/js/myruncontrol.js
@@ -30,6 +30,8 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     this.running = running;
     this.finished = finished;
     this.datasetNumber = datasetNumber;
+    this.unanswered = 0;  // number of requests that the server has not answered yet
+    this.outdated = 0;  // how many of these were sent before the last reset
 
     /** Start the model and keep it running until stopped */
     this.start = function start() {
@@ -53,6 +55,7 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
     this.step = function step() {
         this.tick += 1;
         stepDisplay.innerText = this.tick;
+        this.unanswered += 1;
         send({ type: "get_step", step: this.tick });
     }
 
@@ -67,9 +70,21 @@ function ModelController(tick = 0, fps = 3, running = false, finished = false, d
             startModelButton.firstElementChild.innerText = "Start";
         }
         clearTimeout(this.timeout)
+        this.outdated = this.unanswered;
+        this.unanswered += 1;
         send({ type: "reset" });
     }
 
+    /** Register an answer of the server and tell whether it is about the current run (answers arrive in order) */
+    this.isCurrent = function isCurrent() {
+        this.unanswered -= 1;
+        if (this.outdated > 0) {
+            this.outdated -= 1;
+            return false;
+        }
+        return true;
+    }
+
     /** Stops the model and put it into a finished state */
     this.done = function done() {
         this.stop();
@@ -155,11 +170,15 @@ ws.onmessage = function (message) {
     switch (msg["type"]) {
         case "viz_state":
             // Update visualization state
-            controller.render(msg["data"])
+            if (controller.isCurrent()) {
+                controller.render(msg["data"])
+            }
             break;
         case "end":
             // We have reached the end of the model
-            controller.done();
+            if (controller.isCurrent()) {
+                controller.done();
+            }
             break;
         case "model_params":
             // Create GUI elements for each model parameter and reset everything
-- 
2.43.0


From 4409e099402815f921eda2d37d9afeb9d2ccba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 31/36] fix: batch runs use the documented default of the
 absolute utility threshold

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index dd06053..345738f 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
     parser.add_argument('--relative_utility_threshold', nargs="+", type=float, default=0,
                         help='The utility increase ratio under which moves are disregarded. Default is 0%%.')
-    parser.add_argument('--absolute_utility_threshold', nargs="+", type=float, default=0,
+    parser.add_argument('--absolute_utility_threshold', nargs="+", type=float, default=1e-9,
                         help='The utility threshold under which moves are disregarded. Default is 1e-9.')
     parser.add_argument('--iterations_after_convergence', type=int, default=10,
                         help='The minimum consecutive idle iterations that are required before terminations. '
-- 
2.43.0


From 7ae6c4bca3a2051081740e0c20a70a1d46a6d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 32/36] fix: batch runs ignored the agent profile weights they
 were given

---
 batch-run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index 345738f..d8cad68 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -1,4 +1,5 @@
 import argparse
+import functools
 import random
 import pandas as pd
 
@@ -72,7 +73,8 @@ if __name__ == "__main__":
     if seed is None:
         seed = random.randint(0, 9999999)
 
-    args_dict.pop("agent_profile_distr") #todo deal with this instead of popping
+    # the weights belong together, so they are not values to vary the parameter over
+    agent_profile_distr = args_dict.pop("agent_profile_distr")
 
     params = {}
     variable_params = {}
@@ -86,7 +88,7 @@ if __name__ == "__main__":
 
     start_time = time.time()
     results, batch_run_directory = custom_batch_run(
-        sim.Simulation,
+        functools.partial(sim.Simulation, agent_profile_distr=agent_profile_distr),
         parameters=params,
         iterations=1, #todo maybe add as command-line option
         max_steps=params['max_iterations'],
-- 
2.43.0


From 7375fee0974ee65b9054639ba5b112d8a568c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 33/36] fix: batch runs failed to draw the heatmaps if a
 parameter value was given twice

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 21d97d4..1dfdd09 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -470,7 +470,7 @@ def plot_aggregate_data_heatmap(df, variables, model_reporters, output_dir):
     for reporter in model_reporters:
         fig = plt.figure()
         cols_to_keep = variables + [reporter]
-        df_ = df[cols_to_keep]
+        df_ = df[cols_to_keep].drop_duplicates(variables)  # e.g. if the same value was given twice
         df_.set_index(variables, inplace=True)
         unstacked_df = df_[reporter].unstack(level=0)
 
-- 
2.43.0


From 21b54a902e62985fd1561ba52dc19701f3045a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 34/36] fix: heatmaps labelled all values below 5e-5 as 0.0

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1dfdd09..ff4a0a4 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -482,7 +482,7 @@ def plot_aggregate_data_heatmap(df, variables, model_reporters, output_dir):
         ax = sns.heatmap(unstacked_df, annot=True, annot_kws={"size": 12}, fmt='g', cbar_kws=cbar_kws, cmap='flare')
         ax.invert_yaxis()
         labels = [item.get_text() for item in ax.get_yticklabels()]
-        ax.set_yticklabels([str(round(float(label), 4)) for label in labels])
+        ax.set_yticklabels(['{:.6g}'.format(float(label)) for label in labels])
 
         filename = 'heatmap-' + reporter + "-" + '-'.join(variables) + ".png"
         plt.savefig(path / filename, bbox_inches='tight')
-- 
2.43.0


From e9b9ef5767b10245d8fc846dedee0900fcb444e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 35/36] fix: batch results numbered every iteration of a
 combination 0

---
 custom_batchrunner.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 2eafa29..5c9bebf 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -8,7 +8,6 @@ from copy import copy
 from multiprocessing import Pool
 from typing import (
     Any,
-    Counter,
     Dict,
     Iterable,
     List,
@@ -88,15 +87,12 @@ def custom_batch_run(
     results: List[Dict[str, Any]] = []
 
     with tqdm(total_iterations, disable=not display_progress) as pbar:
-        iteration_counter: Counter[Tuple[Any, ...]] = Counter()
-
         def _fn(paramValues, rawdata):
-            iteration_counter[paramValues] += 1
-            iteration = iteration_counter[paramValues]
             run_id = next(run_counter)
             data = []
             for run_data in rawdata:
-                out = {"RunId": run_id, "iteration": iteration - 1}
+                # the iterations of a parameter combination differ in their seed only
+                out = {"RunId": run_id, "iteration": run_data["seed"] - initial_seed}
                 out.update(run_data)
                 data.append(out)
             results.extend(data)
-- 
2.43.0


From c1168af0b0c796548d0aeb663f35d9e0f6fa0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:40 +0000
Subject: [PATCH 36/36] fix: batches with many long parameter values failed as
 their file names got too long

---
 custom_batchrunner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 5c9bebf..5857bb0 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -71,6 +71,7 @@ def custom_batch_run(
     for i, params in enumerate(final_kwargs_list):
         seq_id = i + 1
         execution_id = '-'.join([str(key) + '-' + str(value) for key, value in params.items() if key not in fixed_params])
+        execution_id = execution_id[:200]  # it becomes part of file names, the length of which is limited (usually to 255)
         params.update({'seq_id': seq_id, 'execution_id': execution_id})
     process_func = partial(
         _model_run_func,
-- 
2.43.0

