From e78b2e30f854fdfe1a9a831dd29f5b80475fec75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 01/25] fix: size parameters that the test never measures
 before using their sample counts

---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..bf3a5a5 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1305,16 +1305,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From e67ee44be392a27c3dba468f337ad73b74e18241 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 02/25] fix: do not pass time to mechanism equations that do
 not take it, including the default no wear-out one

---
 gerabaldi/models/devices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index bf3a5a5..0e55137 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -443,8 +443,8 @@ class MechMdl(LatentMdl):
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
         no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
 
-        # Add the stress time to the argument dict
-        arg_vals = {'time': times}
+        # Add the stress time to the argument dict, unless the mechanism equation does not depend on it
+        arg_vals = {'time': times} if 'time' in self.compute_args else {}
         # Add all stress conditions, latent variables, and potentially initial values to the argument list
         for arg in self.compute_args:
             if arg in latents:
@@ -535,7 +535,7 @@ class DegMechMdl(MechMdl):
 
         # Computes the absolute difference between the target value and the calculated value using a given time
         def residue(time, curr_deg_val, conds, ltnts):
-            arg_vals = {'time': time}
+            arg_vals = {'time': time} if 'time' in self.compute_args else {}
             for arg in self.compute_args:
                 if arg in ltnts:
                     arg_vals[arg] = ltnts[arg]
-- 
2.43.0


From 0ec201ab79aef1aa073a85677436d2cd383b4d4f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 03/25] fix: give initial and parameter values one entry per
 device for scalar and elementwise equations

---
 gerabaldi/models/devices.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 0e55137..47056b8 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -787,7 +787,12 @@ class InitValMdl(LatentMdl):
         # Can either generate the dev and lot variations here, or they could be provided as method arguments
         latents = self.gen_latent_vals(num_devs, num_chps, num_lots)
         # Compute the initial values using the model's specified equation
-        return self.compute(**latents)
+        dims = (num_lots, num_chps, num_devs)
+        try:
+            init_vals = self.compute(**latents)
+        except ValueError:
+            init_vals = _loop_compute(self.compute, latents, dims)
+        return np.full(dims, init_vals)
 
 
 class DegPrmMdl(LatentMdl):
@@ -1041,7 +1046,8 @@ class DegPrmMdl(LatentMdl):
             prm_vals = self.compute(**arg_vals)
         except ValueError:
             prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
-        return prm_vals, mech_vals
+        # Equations that do not depend on any per-sample values return a single value that all the samples share
+        return np.full(strs_dims, prm_vals), mech_vals
 
     def calc_cond_shifted_vals(
         self, meas_dims: tuple, strs_conds: dict, deg_vals: np.ndarray, latents: dict
@@ -1087,9 +1093,10 @@ class DegPrmMdl(LatentMdl):
 
         # Now compute the parameter values
         try:
-            return self.compute(**arg_vals)
+            shifted = self.compute(**arg_vals)
         except ValueError:
-            return _loop_compute(self.compute, arg_vals, meas_dims)
+            shifted = _loop_compute(self.compute, arg_vals, meas_dims)
+        return np.full(meas_dims, shifted)
 
     def get_dependencies(self, conditions, target):
         """
-- 
2.43.0


From 1dd5b596bf0f92ce827971dcc876f15d7809d67c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 04/25] fix: report circuit parameters for exactly the measured
 devices of every chip and lot

---
 gerabaldi/models/devices.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 47056b8..ba155dd 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1188,7 +1188,15 @@ class CircPrmMdl(LatentMdl):
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        # Only keep the devices that are being measured, some inputs may have been generated for more devices than that
+        lots_and_chps = [*arg_vals.values(), *degraded_prm_vals.values()][0].shape[:2]
+        dims = (*lots_and_chps, num_samples)
+        arg_vals = {arg: val[:, :, :num_samples] for arg, val in arg_vals.items()}
+        try:
+            circ_vals = self.compute(**arg_vals)
+        except ValueError:
+            circ_vals = _loop_compute(self.compute, arg_vals, dims)
+        return np.full(dims, circ_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 8eb88b132832e18b111df1f9a2926b338df1c76a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 05/25] fix: stress all the devices of a provided initial
 state, not only those that the test measures

---
 gerabaldi/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..0767851 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -223,6 +223,9 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    # A provided initial state may hold other parameters and more devices than are measured, these all get stressed too
+    for prm, vals in sim_state.curr_prm_vals.items():
+        test_report.dev_counts[prm] = vals.shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From e1d2d47cafe756dd6d60768206647876bfec0e8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 06/25] fix: leave the device counts passed to gen_init_state
 unchanged

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 0767851..d593500 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,8 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        # Copy as the counts get extended below and should not be changed for the caller
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From 1c0a9eb7efed5707ce6a590e0681fe3fef013fd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 07/25] fix: support numeric elapsed times when setting up an
 initial state

---
 gerabaldi/models/states.py | 5 ++++-
 gerabaldi/sim.py           | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/states.py b/gerabaldi/models/states.py
index 427f182..60d6e52 100644
--- a/gerabaldi/models/states.py
+++ b/gerabaldi/models/states.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 from datetime import timedelta
 from copy import deepcopy
 
+from gerabaldi.helpers import _convert_time
+
 __all__ = ['SimState']
 
 
@@ -52,7 +54,8 @@ class SimState:
         elapsed_time: timedelta or float or int, optional
             The amount of accumulated stress time thus far, typically initialized to 0 (default 0)
         """
-        self.elapsed = elapsed_time
+        # Numeric times are assumed to be in hours, same as for the other models
+        self.elapsed = elapsed_time if isinstance(elapsed_time, timedelta) else _convert_time(elapsed_time, 'hours')
         self.curr_prm_vals = deepcopy(init_prm_vals)
         self.init_prm_vals = deepcopy(init_prm_vals)
         self.curr_deg_mech_vals = deepcopy(init_mech_vals)
diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d593500..f169795 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -83,7 +83,9 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+        # Numeric times are assumed to be in hours, same as for the other models
+        is_delta = isinstance(elapsed_time, timedelta)
+        init_state.elapsed = elapsed_time if is_delta else _convert_time(elapsed_time, 'hours')
     return init_state
 
 
-- 
2.43.0


From 7ea1c0536b2d16c7ec44df65ba50af7aed224d05 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 08/25] fix: raise MissingParamError when a measured parameter
 is not defined anywhere

---
 gerabaldi/sim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index f169795..1d66a6b 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -149,6 +149,10 @@ def _sim_meas_step(
     """
     # Loop through the parameters to measure and determine if they are degraded parameters or independent conditions
     meas_results = pd.DataFrame()
+    for prm in step.measurements:
+        if prm not in dev_mdl.prm_mdl_list and prm not in step.conditions:
+            raise MissingParamError(f"Requested measurement of param '{prm}' failed, param is not defined within the \
+            simulated test.")
     # Generate 'true' values for environmental conditions specified by the step (using their variability models)
     conds = test_env.gen_env_cond_vals(step.conditions, step.measurements, report, dev_mdl, 'measure')
 
@@ -171,14 +175,10 @@ def _sim_meas_step(
             )
             measured = SimReport.format_measurements(measured, prm, sim_state.elapsed, step_id, 'parameter')
 
-        elif prm in step.conditions:
+        else:
             # These parameters are not degraded parameters of the device but instead environmental parameters
             measured = SimReport.format_measurements(conds[prm][prm], prm, sim_state.elapsed, step_id, 'condition')
 
-        else:
-            raise MissingParamError(f"Requested measurement of param '{prm}' failed, param is not defined within the \
-            simulated test.")
-
         # With the measurements completed, configure the dataframe for reporting and add to the merged dataframe
         measured['measured'] = test_env.meas_instm(prm).measure(measured['measured'])
         meas_results = pd.concat((meas_results, measured), ignore_index=True)
-- 
2.43.0


From bcb87609ede7dc17808ff099425fa2cc632c51f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 09/25] fix: make the longest considered equivalent stress time
 independent of the mechanism time unit

---
 gerabaldi/models/devices.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index ba155dd..60048e3 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,13 +7,14 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _convert_time, _on_demand_import, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -406,6 +407,10 @@ class MechMdl(LatentMdl):
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
+    def max_equiv_time(self) -> float:
+        # The longest equivalent stress time considered is ten billion hours, in whichever time unit the mechanism uses
+        return _convert_time(timedelta(hours=1e10), self.time_unit)
+
     def set_time_unit(self, prm_time_unit: str = None) -> None:
         if self.time_unit is None:
             if prm_time_unit is None:
@@ -441,7 +446,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self.max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict, unless the mechanism equation does not depend on it
         arg_vals = {'time': times} if 'time' in self.compute_args else {}
@@ -549,7 +554,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self.max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 07e763a8e64f0a553850b6e75bad6459d5c60be9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 10/25] fix: keep report times correct when converting or
 exporting a report that was already converted

---
 gerabaldi/models/reports.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..57f5bb8 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -201,12 +201,12 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
-        strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
+        strs_cpy['duration'] = strs_cpy['duration'].apply(self._time_in_units, units=units)
+        strs_cpy['start time'] = strs_cpy['start time'].apply(self._time_in_units, units=units)
+        strs_cpy['end time'] = strs_cpy['end time'].apply(self._time_in_units, units=units)
         report_json['Test Summary'] = strs_cpy.to_json()
 
         if file:
@@ -226,5 +226,11 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
+
+    def _time_in_units(self, time: timedelta | float, units: str) -> float:
+        # Times that have already been converted to raw values are expressed in the report's current time unit
+        if not isinstance(time, timedelta):
+            time = _convert_time(time, self.time_unit)
+        return _convert_time(time, units)
-- 
2.43.0


From e90b2adff5c02b4a227c399f1cb7964a0e3583c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 11/25] fix: support exporting, loading and converting reports
 of tests without measurements or steps

---
 gerabaldi/models/reports.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 57f5bb8..808304d 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -78,10 +78,12 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
-            self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
+            # Tests without any measurements or without any steps produce reports without the corresponding columns
+            if 'time' in self.measurements:
+                self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units)
+            for col in ('start time', 'end time', 'duration'):
+                if col in self.test_summary:
+                    self.test_summary[col] = self.test_summary[col].apply(_convert_time, units=units)
         # Allow for empty report initializations, though is not an expected use case
         else:
             self.test_name, self.test_description = name, description
@@ -201,12 +203,13 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
+        if 'time' in meas_cpy:
+            meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
-        strs_cpy['duration'] = strs_cpy['duration'].apply(self._time_in_units, units=units)
-        strs_cpy['start time'] = strs_cpy['start time'].apply(self._time_in_units, units=units)
-        strs_cpy['end time'] = strs_cpy['end time'].apply(self._time_in_units, units=units)
+        for col in ('duration', 'start time', 'end time'):
+            if col in strs_cpy:
+                strs_cpy[col] = strs_cpy[col].apply(self._time_in_units, units=units)
         report_json['Test Summary'] = strs_cpy.to_json()
 
         if file:
@@ -226,7 +229,8 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
-        self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
+        if 'time' in self.measurements:
+            self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
         self.time_unit = units
 
     def _time_in_units(self, time: timedelta | float, units: str) -> float:
-- 
2.43.0


From 5b33ac5daee51acc4597d69afb29924e16a2789b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 12/25] fix: keep small values, precise times and textual names
 intact through report export and load

---
 gerabaldi/models/reports.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 808304d..2d2fbf7 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -73,8 +73,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = pd.read_json(report_json['Measurements'], dtype=False, convert_dates=False)
+            self.test_summary = pd.read_json(report_json['Test Summary'], dtype=False, convert_dates=False)
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -205,12 +205,12 @@ class SimReport:
         meas_cpy = self.measurements.copy()
         if 'time' in meas_cpy:
             meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = meas_cpy.to_json(double_precision=15)
         strs_cpy = self.test_summary.copy()
         for col in ('duration', 'start time', 'end time'):
             if col in strs_cpy:
                 strs_cpy[col] = strs_cpy[col].apply(self._time_in_units, units=units)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = strs_cpy.to_json(double_precision=15)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From e0e2df517f55b64dc8f39060aa13c5d83cfa6e53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 13/25] fix: create all the missing directories on the path of
 an exported report

---
 gerabaldi/models/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 2d2fbf7..7326693 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -215,7 +215,7 @@ class SimReport:
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From be3f8140225bcb75472a686f19920dea725403b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 14/25] fix: replace the default coloured log handler when a
 custom stream handler is configured

---
 gerabaldi/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..806a4fa 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,11 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # Handler types are usually subclasses, the default coloured one included, and file handlers are stream handlers
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From 5bcbb8197f6618935f5d4e35def4ed089b8184b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 15/25] fix: restore distribution centres of zero after a CBI
 export

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 60048e3..927992e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -247,7 +247,7 @@ class LatentVar:
             else:
                 cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
+            if old_centre is not None:
                 self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
-- 
2.43.0


From aa214c91cf5251af29c0d61bf0765480ab8e3d1b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 16/25] fix: honour a random variable test seed of zero

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From b2bf9e5fe76fe18d4c226772dd33c0f86f7f1f21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 17/25] fix: let undefined values pass through instruments with
 limited precision

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..4f8bca3 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From fa2a7cbcb9e5b50c1f1665f766c3ccdbcc1afd4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:27 +0000
Subject: [PATCH 18/25] fix: find equivalent stress times for saturating
 mechanisms and keep the damage that they cannot reach

---
 gerabaldi/models/devices.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 927992e..5d1d994 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -538,8 +538,8 @@ class DegMechMdl(MechMdl):
             The amount of time required to reach the current value of degradation under the specified stress conditions
         """
 
-        # Computes the absolute difference between the target value and the calculated value using a given time
-        def residue(time, curr_deg_val, conds, ltnts):
+        # Computes the difference between the calculated value using a given time and the target value
+        def excess(time, curr_deg_val, conds, ltnts):
             arg_vals = {'time': time} if 'time' in self.compute_args else {}
             for arg in self.compute_args:
                 if arg in ltnts:
@@ -548,13 +548,29 @@ class DegMechMdl(MechMdl):
                     arg_vals[arg] = conds[arg]
             # Calculate the degradation for the sample
             try:
-                return abs(curr_deg_val - self.compute(**arg_vals))
+                return self.compute(**arg_vals) - curr_deg_val
             except ValueError:
-                return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
+                return _loop_compute(self.compute, arg_vals, dims) - curr_deg_val
+
+        args = {'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents}
+        min_time, max_time = 1e-3, self.max_equiv_time()
+        # Determine which samples can get past the target, and in which direction
+        first, last = (excess(np.full_like(deg_val, time, dtype=float), **args) for time in (min_time, max_time))
+        gets_past = np.less(first * last, 0) | np.less(abs(first), abs(last))
+
+        # Computes the absolute difference between the target value and the calculated value using a given time. Models
+        # that saturate have the same difference for all long times, so weight the differences past the target by time
+        # for the minimum to always be found
+        def residue(time, **kwargs):
+            diff = excess(time, **kwargs)
+            is_past = gets_past & np.greater(diff * last, 0)
+            return np.where(is_past, abs(diff) * (1 + np.log10(time / min_time)), abs(diff))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
-        return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, self.max_equiv_time()), maxiter=50, log_gold=True)
+        times = minimize(residue, extra_args=args, bounds=(min_time, max_time), maxiter=50, log_gold=True)
+        # Samples that cannot get any closer to the target than in the longest time do not degrade. The empty index keeps
+        # a single time a number
+        return np.where(np.less_equal(abs(last), abs(excess(times, **args))), max_time, times)[()]
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 985b79114baecae62b314f8e35a6e8025595157b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:06 +0000
Subject: [PATCH 19/25] fix: accept NOTSET as the configured logging level

---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 806a4fa..cde9734 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -70,7 +70,7 @@ def configure_logger(
     """
     logger = logging.getLogger('gerabaldi')
     # If the user has provided a global logging level, set accordingly
-    if logging_level:
+    if logging_level is not None:
         logger.setLevel(logging_level)
 
     # Identify any existing logging output handlers based on their types
-- 
2.43.0


From db705e4317ba445a17bd8b89173df789e2ca4275 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 20/25] fix: reject unknown time units when converting the
 times of a report without measurements

---
 gerabaldi/models/reports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 7326693..e02b753 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -229,6 +229,8 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        if units not in TIME_UNIT_MAP:
+            raise UserConfigError(f'Invalid time unit {units} requested for the report times.')
         if 'time' in self.measurements:
             self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
         self.time_unit = units
-- 
2.43.0


From 921255b61b74e1541ea00843542a5f3e712bfc44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 21/25] fix: export latent variables for inference without
 changing them, also when the export fails or uses integers

---
 gerabaldi/models/devices.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 5d1d994..314615e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,7 +7,9 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from copy import copy
 from datetime import timedelta
+from operator import add, mul
 from typing import Callable
 
 from gerabaldi.math import minimize
@@ -220,16 +222,17 @@ class LatentVar:
                 raise NotImplementedError(f'Requested target CBI framework {target_framework} is not yet supported.')
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
-            old_centre = None
+            dev_vrtn_mdl = self.dev_vrtn_mdl
             if self.deter_val:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
-                # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
-                old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised. The change is
+                # made to a copy to avoid any method side effects
+                dev_vrtn_mdl = copy(self.dev_vrtn_mdl)
+                dev_vrtn_mdl.set_centre(self.deter_val, mul if self.vrtn_type == 'scaling' else add)
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
@@ -237,18 +240,15 @@ class LatentVar:
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre is not None:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                cbi_dist = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
-- 
2.43.0


From e5c42f6529f3c4578cd3cbdcc858b2827a54081a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:50 +0000
Subject: [PATCH 22/25] fix: pass shared values of any numeric type to
 elementwise equations

---
 gerabaldi/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index cde9734..ed8e1d4 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -175,9 +175,10 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
     for key, val in vals.items():
         if type(val) is dict:
             new[key] = _get_single_index(vals[key], i, j, k)
-        elif type(val) in [np.ndarray, list]:
+        elif type(val) in [np.ndarray, list] and np.ndim(val) > 0:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
+            # Any type of single value is shared by all the items
             new[key] = val
     return new
 
-- 
2.43.0


From b4a6cc7720d2cdddea39b9bf1494ff6f929360d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:22 +0000
Subject: [PATCH 23/25] fix: make the shortest considered equivalent stress
 time negligible for every time unit

---
 gerabaldi/models/devices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 314615e..7a4f074 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -411,6 +411,10 @@ class MechMdl(LatentMdl):
         # The longest equivalent stress time considered is ten billion hours, in whichever time unit the mechanism uses
         return _convert_time(timedelta(hours=1e10), self.time_unit)
 
+    def min_equiv_time(self) -> float:
+        # The shortest equivalent stress time considered is negligible compared to the shortest possible stress duration
+        return _convert_time(timedelta(microseconds=1), self.time_unit) / 1000
+
     def set_time_unit(self, prm_time_unit: str = None) -> None:
         if self.time_unit is None:
             if prm_time_unit is None:
@@ -553,7 +557,7 @@ class DegMechMdl(MechMdl):
                 return _loop_compute(self.compute, arg_vals, dims) - curr_deg_val
 
         args = {'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents}
-        min_time, max_time = 1e-3, self.max_equiv_time()
+        min_time, max_time = self.min_equiv_time(), self.max_equiv_time()
         # Determine which samples can get past the target, and in which direction
         first, last = (excess(np.full_like(deg_val, time, dtype=float), **args) for time in (min_time, max_time))
         gets_past = np.less(first * last, 0) | np.less(abs(first), abs(last))
@@ -567,7 +571,7 @@ class DegMechMdl(MechMdl):
             return np.where(is_past, abs(diff) * (1 + np.log10(time / min_time)), abs(diff))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
-        times = minimize(residue, extra_args=args, bounds=(min_time, max_time), maxiter=50, log_gold=True)
+        times = minimize(residue, extra_args=args, bounds=(min_time, max_time), precision=1e-6, maxiter=100, log_gold=True)
         # Samples that cannot get any closer to the target than in the longest time do not degrade. The empty index keeps
         # a single time a number
         return np.where(np.less_equal(abs(last), abs(excess(times, **args))), max_time, times)[()]
-- 
2.43.0


From 8085e1048594c7f01a4be41fd74fdab38fdab4c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 24/25] fix: let one instrument or variation model serve
 several parameters or conditions

---
 gerabaldi/models/phys_envs.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 4f8bca3..6307821 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -326,24 +326,26 @@ class PhysTestEnv:
         self.name = env_name
         # Non-mutable default argument setup
         if env_vrtns is None:
-            env_vrtns = []
+            env_vrtns = {}
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+        else:
+            env_vrtns = {vrtn.name: vrtn for vrtn in env_vrtns}
         if meas_instms is None:
-            meas_instms = []
+            meas_instms = {}
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+        else:
+            meas_instms = {instm.name: instm for instm in meas_instms}
 
-        # Create attributes for each parameter
+        # Create attributes for each parameter, the same object may be used for several of them
         for prm in env_vrtns:
-            setattr(self, prm.name + '_var', prm)
+            setattr(self, prm + '_var', env_vrtns[prm])
         for prm in meas_instms:
-            setattr(self, prm.name + '_instm', prm)
+            setattr(self, prm + '_instm', meas_instms[prm])
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
-- 
2.43.0


From dd74eeec3b8c78569909bb2f6f089dd2cf59bc0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:59 +0000
Subject: [PATCH 25/25] fix: draw varied conditions in a reproducible order

---
 gerabaldi/models/devices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 7a4f074..0863b0e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1147,8 +1147,9 @@ class DegPrmMdl(LatentMdl):
                 depends_conds.extend([arg for arg in self.mech_mdl(mech).compute_args if arg in conditions])
         else:
             depends_conds.extend([arg for arg in self.cond_mdl.compute_args if arg in conditions])
-        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates
-        return [*set(depends_conds)]
+        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates but keep the
+        # order for seeded simulations to be reproducible
+        return [*dict.fromkeys(depends_conds)]
 
 
 class CircPrmMdl(LatentMdl):
-- 
2.43.0

