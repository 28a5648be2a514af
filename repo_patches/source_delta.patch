From c52d3c80bff7ff8e84b0a311b22b1fd6a9ec10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 01/60] fix: restore logs as lists when a microgrid is loaded,
 so that a restored microgrid can be compared and stepped

---
 src/pymgrid/utils/logger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..200b19b 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,9 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
-        return cls(raw)
+            raw = pd.read_csv(raw, index_col=0)
+
+        if isinstance(raw, pd.DataFrame):
+            raw = raw.to_dict(orient='list')
+
+        return cls({k: list(v) for k, v in raw.items()})
-- 
2.43.0


From f3b29ed18a8a4f25ef3c8be42f6aac72653a7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:55 +0000
Subject: [PATCH 02/60] fix: keep the arrays of every module and of every
 dumped document in files of their own

---
 src/pymgrid/modules/base/base_module.py |  2 +-
 src/pymgrid/utils/serialize.py          | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..fd58e60 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -847,7 +847,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        return dump_data(data, dumper_stream, self.yaml_tag, name=self.name)
 
     def serializable_state_attributes(self):
         """
diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..b629cd5 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -21,11 +21,18 @@ def add_pymgrid_yaml_representers():
     )
 
 
-def dump_data(data_dict, stream, yaml_tag):
+def dump_data(data_dict, stream, yaml_tag, name=None):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data"
+    # One directory per document and per named module, so that neither the modules of a microgrid nor documents
+    # that share a directory overwrite each other's arrays.
+    stream_path = Path(stream.name)
+    path = stream_path.parent / "data" / stream_path.name
+
+    if name is not None:
+        path = path / '_'.join(str(n) for n in name if n is not None)
+
     return add_path_to_arr_like(data_dict, path, yaml_tag)
 
 
-- 
2.43.0


From 0a42c4b40b00f2d288eb11fd653518b2c93e9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 03/60] fix: read dumped arrays back exactly, so that a
 microgrid loaded from a file equals the one dumped

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index b629cd5..40b2ba0 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -109,7 +109,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 4bafb729fd1672192e428037a3d09b531a24f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 04/60] fix: index the log by the steps of the episode, which
 may start late under a trajectory

---
 src/pymgrid/microgrid/microgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..69e0bee 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,10 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        # The modules' initial step differs from self.initial_step if a trajectory is in use.
+        index = pd.RangeIndex(start=self._get_module_initial_step(), stop=self.current_step)
+
+        df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From 53d2955c39360f367652d00de88f2f7bc6065723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 05/60] fix: never sample an empty stochastic trajectory

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..f88477d 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -9,7 +9,7 @@ class StochasticTrajectory(BaseTrajectory):
     def __call__(self, initial_step, final_step):
 
         initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        final = np.random.randint(initial+1, final_step)
 
         return initial, final
 
-- 
2.43.0


From e21acff094724cab60377359f5bf7de3875762d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 06/60] fix: allow a fixed length trajectory to end at the
 final step

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index f88477d..48e808b 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From 0449136d3d7ebdb4edbc3156af8b94f7141dd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:25 +0000
Subject: [PATCH 07/60] fix: forecast anew, and remember the forecaster, when a
 module's forecaster or horizon is set

---
 .../modules/base/timeseries/base_timeseries_module.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..9eafd65 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -234,8 +234,9 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._set_forecast_horizon(forecast_horizon * (forecaster is not None))
 
+        self._forecast_param = forecaster
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
                                           (self.forecast_horizon, len(self.state_components)),
@@ -243,6 +244,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
+        self._current_forecast = self.forecast()
+
     @property
     def forecast_horizon(self):
         """
@@ -258,7 +261,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
     @forecast_horizon.setter
     def forecast_horizon(self, value):
+        self._set_forecast_horizon(value)
+        self._current_forecast = self.forecast()
 
+    def _set_forecast_horizon(self, value):
         self._forecast_horizon = value
         self._state_dict_keys = self._set_state_dict_keys()
         self._observation_space = self._get_observation_spaces()
@@ -266,6 +272,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         if value > 0 and isinstance(self._forecaster, NoForecaster):
             from warnings import warn
             warn("Setting forecast_horizon requires a non-null forecaster. Implementing OracleForecaster.")
+            self._forecast_param = "oracle"
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
-- 
2.43.0


From 39a31884fbe26a7ceda2623715eb3a2d8988c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:40 +0000
Subject: [PATCH 08/60] fix: apply forecasters passed to
 Microgrid.set_forecaster as a dict

---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 69e0bee..d340ae5 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -532,15 +532,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 4cde9d6b0b02023a8fd07065fef1707091d20561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:06 +0000
Subject: [PATCH 09/60] fix: keep declared observation spaces in step with a
 newly set forecaster

---
 src/pymgrid/envs/base/base.py      | 4 ++++
 src/pymgrid/microgrid/microgrid.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..f9274c4 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -162,6 +162,10 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         return (flatten_space(obs_space) if self._flat_spaces else obs_space), obs_space
 
+    def set_forecaster(self, *args, **kwargs):
+        super().set_forecaster(*args, **kwargs)
+        self.observation_space, self._nested_observation_space = self._get_observation_space()
+
     def reset(self):
         obs = super().reset()
         return self._get_obs(obs)
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index d340ae5..eaa3687 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -554,6 +554,10 @@ class Microgrid(yaml.YAMLObject):
                 except AttributeError:
                     pass
 
+        self.microgrid_observation_space = MicrogridSpace(
+            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
+        )
+
     def get_forecast_horizon(self):
         """
         Get the forecast horizon of timeseries modules contained in the microgrid.
-- 
2.43.0


From 556d00a6704534fd6587e519ba98a380321af9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 10/60] fix: forecast from the restored step, not from the
 initial one, when loading a time series module

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 9eafd65..a0269e7 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -349,6 +349,11 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         data["cls_params"]["forecaster"] = self._forecast_param
         return data
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def serializable_state_attributes(self):
         return ["_current_step"]
 
-- 
2.43.0


From faeffe6557350de88d16019e124dc453f233f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 11/60] fix: reset a genset to the status init_start_up defines

---
 src/pymgrid/modules/genset_module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..a10483f 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -97,6 +97,11 @@ class GensetModule(BaseMicrogridModule):
                          provided_energy_name=provided_energy_name,
                          absorbed_energy_name=None)
 
+    def reset(self):
+        self._current_status, self._goal_status = int(self.init_start_up), int(self.init_start_up)
+        self._reset_up_down_times()
+        return super().reset()
+
     def step(self, action, normalized=True):
         """
         Take one step in the module, attempting to draw a certain amount of energy from the genset.
-- 
2.43.0


From 0f5b230cc85780cc6bae24bcc62a50f8f382d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:08 +0000
Subject: [PATCH 12/60] fix: do not let rounding charge a battery beyond its
 capacity

---
 src/pymgrid/modules/battery_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..ea5a7fb 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,8 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity and np.isclose(self._current_charge, self.max_capacity):
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From 071753072a137260be497aa94d7b63c86cabbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 13/60] fix: sample strictly bound actions of a genset

---
 src/pymgrid/modules/genset_module.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index a10483f..26714b2 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -351,7 +351,15 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        goal_status = np.random.rand()
+
+        if not strict_bound:
+            return np.array([goal_status, super().sample_action()])
+
+        # Bounds that will be in effect once the status has been updated.
+        next_bounds = self.next_min_production(round(goal_status)), self.next_max_production(round(goal_status))
+        min_bound, max_bound = [self._action_space.normalize(np.array([goal_status, bound]))[1] for bound in next_bounds]
+        return np.array([goal_status, np.random.rand()*(max_bound-min_bound) + min_bound])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From 4ec6128d3591a10e431734309f2ce458b73161d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:42 +0000
Subject: [PATCH 14/60] fix: let scalar user-defined forecasters reach the end
 of the time series

---
 src/pymgrid/forecast/forecaster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..979fd3c 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,8 +361,10 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if len(val_c_n) > n:
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
+        elif len(val_c_n) == 0:  # At the end of the time series; there is nothing left to forecast.
+            return np.array(val_c_n, dtype=np.float64)
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
         try:
             shape = (-1, vectorized_output.shape[1])
-- 
2.43.0


From 9909d8d22f1f75c9626d07f33ea16fddb458867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 15/60] fix: validate user-defined forecasters of time series
 with several components

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 979fd3c..e206df0 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -352,7 +352,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(forecaster_output * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From 88e22d7570e8af51235675c800521a9d8a6be82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:41 +0000
Subject: [PATCH 16/60] fix: choose data files independently of the order in
 which the file system lists them

---
 src/pymgrid/MicrogridGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/MicrogridGenerator.py b/src/pymgrid/MicrogridGenerator.py
index f24f771..3d15b68 100644
--- a/src/pymgrid/MicrogridGenerator.py
+++ b/src/pymgrid/MicrogridGenerator.py
@@ -129,7 +129,7 @@ class MicrogridGenerator:
         """ Based on a path, and a folder containing data files, return a file chosen randomly."""
         from pathlib import Path
         _path = Path(path)
-        data_files = list(_path.glob("*.csv"))
+        data_files = sorted(_path.glob("*.csv"))
         if not len(data_files):
             raise NameError(f"Unable to find csv data files in {path}")
         return pd.read_csv(np.random.choice(data_files))
-- 
2.43.0


From c5488883947477aa3969a93af8ff41267e17cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 17/60] fix: do not reseed the global random state when
 converting to a non-modular microgrid

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..1fa9a5f 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -227,9 +227,9 @@ def _add_cost_co2(params_dict, cost_co2):
 
 
 def _add_genset_polynom(params_dict):
-    np.random.seed(0)
+    random_state = np.random.RandomState(0)
     warn('Getting genset_polynom parameters randomly')
-    polynom = [np.random.rand() * 10, np.random.rand(), np.random.rand() / 10]
+    polynom = [random_state.rand() * 10, random_state.rand(), random_state.rand() / 10]
 
     to_add = dict(genset_polynom_order= len(polynom))
     to_add.update({f'genset_polynom_{i}': pn for i, pn in enumerate(polynom)})
-- 
2.43.0


From 9bf2ebae9af6da949d3b68285cc7d65268175803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:24 +0000
Subject: [PATCH 18/60] fix: keep the reward shaper and the action log of a
 microgrid when dumping it

---
 src/pymgrid/microgrid/microgrid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index eaa3687..8762b2e 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -895,7 +895,9 @@ class Microgrid(yaml.YAMLObject):
 
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
+        instance._microgrid_logger = instance._microgrid_logger.from_raw(mapping.get("microgrid_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -907,14 +909,20 @@ class Microgrid(yaml.YAMLObject):
         return dump_data(self._serialization_data(), dumper_stream, self.yaml_tag)
 
     def _serialization_data(self):
-        return {
+        data = {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
-            **self._balance_logger.serialize("balance_log")
+            **self._balance_logger.serialize("balance_log"),
+            **self._microgrid_logger.serialize("microgrid_log")
         }
 
+        if isinstance(self.reward_shaping_func, yaml.YAMLObject):
+            data['reward_shaping_func'] = self.reward_shaping_func
+
+        return data
+
     @classmethod
     def from_nonmodular(cls, nonmodular):
         """
-- 
2.43.0


From f33721dbfbbec4b85ee2db87dc21838197c62d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:54 +0000
Subject: [PATCH 19/60] fix: normalize the state of modules with a single state
 component

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index fd58e60..978eb2d 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 46951a4a4c1ec507f82621e1d058ca0ff6906185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:27 +0000
Subject: [PATCH 20/60] fix: dump trajectories and reward shapers without
 attributes

---
 src/pymgrid/microgrid/reward_shaping/base.py | 4 ++++
 src/pymgrid/microgrid/trajectory/base.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..9ed6134 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -19,5 +19,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        # object.__getstate__ returns None if there are no attributes, which yaml is unable to represent.
+        return self.__dict__.copy()
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..64d8ccc 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,10 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        # object.__getstate__ returns None if there are no attributes, which yaml is unable to represent.
+        return self.__dict__.copy()
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
-- 
2.43.0


From 1830ae88a29b419737e8134791f855287163cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 21/60] fix: compare trajectories that take no parameters

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 64d8ccc..6dbd12e 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -18,7 +18,7 @@ class BaseTrajectory(yaml.YAMLObject):
 
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
-        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
+        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
         return f'{self.__class__.__name__}({formatted_params})'
 
     def __eq__(self, other):
-- 
2.43.0


From 0c20b223599db467850692a5414c3b051d4180a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:09 +0000
Subject: [PATCH 22/60] fix: load an environment as it was dumped

---
 src/pymgrid/envs/base/base.py      | 15 ++++++++++++++-
 src/pymgrid/microgrid/microgrid.py | 11 ++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f9274c4..c50c3f2 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -304,4 +304,17 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     @classmethod
     def load(cls, stream):
-        return cls(super().load(stream))
+        loaded = super().load(stream)
+        return loaded if isinstance(loaded, cls) else cls(loaded)
+
+    @classmethod
+    def _init_kwargs(cls, mapping):
+        return {key: mapping[key] for key in ('flat_spaces', 'observation_keys') if key in mapping}
+
+    def _serialization_data(self):
+        keys = self.observation_keys
+        return {
+            **super()._serialization_data(),
+            'flat_spaces': self._flat_spaces,
+            'observation_keys': list(keys) if keys else None
+        }
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 8762b2e..df7ed74 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -893,7 +893,7 @@ class Microgrid(yaml.YAMLObject):
                 warn(f'Ignoring keys {mapping.keys()} when loading from scenario.')
             return cls.from_scenario(microgrid_number)
 
-        instance = cls(mapping["modules"], add_unbalanced_module=False)
+        instance = cls(mapping["modules"], add_unbalanced_module=False, **cls._init_kwargs(mapping))
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance._microgrid_logger = instance._microgrid_logger.from_raw(mapping.get("microgrid_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
@@ -902,6 +902,15 @@ class Microgrid(yaml.YAMLObject):
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
 
+    @classmethod
+    def _init_kwargs(cls, mapping):
+        """
+        Additional keyword arguments with which to initialize an instance being loaded.
+
+        :meta private:
+        """
+        return {}
+
     def serialize(self, dumper_stream):
         """
         :meta private:
-- 
2.43.0


From 71947e9c71922243db408330924d32cfb37ae745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:25 +0000
Subject: [PATCH 23/60] fix: do not replace an environment class' __init__
 while converting to it, which races with other threads

---
 src/pymgrid/envs/base/base.py      | 28 +++++++++++++++++++---------
 src/pymgrid/envs/base/skip_init.py | 20 --------------------
 2 files changed, 19 insertions(+), 29 deletions(-)
 delete mode 100644 src/pymgrid/envs/base/skip_init.py

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index c50c3f2..d8c95d1 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -5,10 +5,24 @@ from gym.spaces import Box, Dict, Tuple, flatten_space, flatten
 from abc import abstractmethod
 
 from pymgrid import NonModularMicrogrid, Microgrid
-from pymgrid.envs.base.skip_init import skip_init
 
 
-class BaseMicrogridEnv(Microgrid, Env):
+class _MicrogridEnvMeta(type(Microgrid)):
+    """
+    Metaclass that does not call __init__ on environments that have been converted from a microgrid or a scenario.
+
+    These have been initialized in the conversion.
+    """
+    def __call__(cls, modules, *args, **kwargs):
+        instance = cls.__new__(cls, modules, *args, **kwargs)
+
+        if not isinstance(modules, (NonModularMicrogrid, Microgrid, int)):
+            instance.__init__(modules, *args, **kwargs)
+
+        return instance
+
+
+class BaseMicrogridEnv(Microgrid, Env, metaclass=_MicrogridEnvMeta):
     """
     Base class for all microgrid environments.
 
@@ -68,19 +82,15 @@ class BaseMicrogridEnv(Microgrid, Env):
             warnings.warn('Initializing an environment with a microgrid will be deprecated in a future version.'
                           'Use from_microgrid() instead.', category=FutureWarning)
 
-            instance = cls.from_microgrid(modules, **kwargs)
+            return cls.from_microgrid(modules, **kwargs)
 
         elif isinstance(modules, int):
             import warnings
             warnings.warn('Initializing an environment with a scenario integer will be deprecated in a future version.'
                           'Use from_scenario() instead.', category=FutureWarning)
-            instance = cls.from_scenario(modules, **kwargs)
+            return cls.from_scenario(modules, **kwargs)
 
-        else:
-            return super().__new__(cls)
-
-        cls.__init__ = skip_init(cls, cls.__init__)
-        return instance
+        return super().__new__(cls)
 
     def __init__(self,
                  modules,
diff --git a/src/pymgrid/envs/base/skip_init.py b/src/pymgrid/envs/base/skip_init.py
deleted file mode 100644
index fc2d901..0000000
--- a/src/pymgrid/envs/base/skip_init.py
+++ /dev/null
@@ -1,20 +0,0 @@
-def skip_init(cls, init):
-    """
-    Skip init once on cls, and then revert to original init.
-
-    Parameters
-    ----------
-    cls : Type
-        Class to skip init on.
-    init : callable
-        Original init.
-
-    Returns
-    -------
-    skip_init : callable
-        Callable that skips init once.
-
-    """
-    def reset_init(*args, **kwargs):
-        cls.__init__ = init
-    return reset_init
-- 
2.43.0


From b094b9188939e064f2365438aa8f8e2fe6c2d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:12 +0000
Subject: [PATCH 24/60] fix: keep the step bounds and the log of an episode in
 progress when converting a microgrid to an environment

---
 src/pymgrid/envs/base/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index d8c95d1..cc59cf7 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import pandas as pd
 
 from gym import Env
@@ -294,9 +296,17 @@ class BaseMicrogridEnv(Microgrid, Env, metaclass=_MicrogridEnvMeta):
 
         kwargs['add_unbalanced_module'] = kwargs.pop('add_unbalanced_module', False)
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
-        kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
+        trajectory_func = kwargs.pop('trajectory_func', microgrid.trajectory_func)
+
+        env = cls(modules.to_tuples(), **kwargs)
 
-        return cls(modules.to_tuples(), **kwargs)
+        # An episode may be in progress, in which case the modules may be in the midst of a trajectory.
+        env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+        env.trajectory_func = env._check_trajectory_func(trajectory_func)
+        env._balance_logger = deepcopy(microgrid._balance_logger)
+        env._microgrid_logger = deepcopy(microgrid._microgrid_logger)
+
+        return env
 
     @classmethod
     def from_nonmodular(cls, nonmodular, **kwargs):
-- 
2.43.0


From 7c75d65702b76e818571c9f43d1f94541de8126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:41 +0000
Subject: [PATCH 25/60] fix: reject identically named modules of different
 types, all but one of which were ignored

---
 src/pymgrid/modules/module_container.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..de9c8b5 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,11 +389,10 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        module_type = (fixed_flex_controllable, source_sink_both)
+        if module_names.setdefault(module_name, module_type) != module_type:
             raise NameError(
-                f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
+                f'Attempted to add module {module_name} of type {module_type}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
 
         try:
-- 
2.43.0


From 1553d837b44f956521eacb90d75840fbb00f7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:55 +0000
Subject: [PATCH 26/60] fix: make only the grid in question flexible or fixed,
 not every grid

---
 src/pymgrid/modules/grid_module.py      | 4 ++--
 src/pymgrid/modules/module_container.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..9fb249e 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -234,7 +234,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
@@ -243,7 +243,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'fixed')
 
     @property
     def import_price(self):
diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index de9c8b5..b4c81ff 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         module_type = (fixed_flex_controllable, source_sink_both)
         if module_names.setdefault(module_name, module_type) != module_type:
-- 
2.43.0


From b45e3dbe79ec42a2737d0950c2aa5c1fa7d078da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:16 +0000
Subject: [PATCH 27/60] fix: keep the log readable when a quantity is no longer
 logged, e.g. after shortening the forecast horizon

---
 src/pymgrid/utils/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 200b19b..36d33fb 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,10 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.keys():
+            if key not in log_dict:
+                self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 6e24e5bb96e5776acc26df108cc371078644112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 28/60] fix: do not swallow attribute errors raised while
 computing a module's attribute

---
 src/pymgrid/modules/module_container.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index b4c81ff..91103e7 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -149,7 +149,7 @@ class Container(UserDict):
         d = dict()
         for k, raw_container in self.containers.items():
             d.update({
-                name: [{attr: getattr(module, attr, NotImplemented) for attr in attrs} for module in module_list]
+                name: [{attr: self._get_attr(module, attr) for attr in attrs} for module in module_list]
                 for name, module_list in raw_container.items()
             })
 
@@ -194,6 +194,15 @@ class Container(UserDict):
 
         return d
 
+    @staticmethod
+    def _get_attr(module, attr):
+        try:
+            return getattr(module, attr)
+        except AttributeError:
+            if hasattr(type(module), attr):  # The attribute exists; computing it failed.
+                raise
+            return NotImplemented
+
     def dir_additions(self):
         """
         :meta private:
-- 
2.43.0


From bdd3b46df4b141679eabb4a3484a81db101764f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:38 +0000
Subject: [PATCH 29/60] fix: no negative limits for a battery whose initial
 charge is rounded below its minimum capacity

---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index ea5a7fb..0ac2de9 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -285,12 +285,12 @@ class BatteryModule(BaseMicrogridModule):
     @property
     def max_production(self):
         # Max discharge
-        return min(self.max_discharge, self._current_charge-self.min_capacity) * self.efficiency
+        return max(min(self.max_discharge, self._current_charge-self.min_capacity), 0.0) * self.efficiency
 
     @property
     def max_consumption(self):
         # Max charge
-        return min(self.max_charge, self.max_capacity - self._current_charge) / self.efficiency
+        return max(min(self.max_charge, self.max_capacity - self._current_charge), 0.0) / self.efficiency
 
     @property
     def current_charge(self):
-- 
2.43.0


From 9eb4b439e8817e51681bff1975d9c6abe4b5f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:50 +0000
Subject: [PATCH 30/60] fix: return every selected observation key of every
 module, and nothing else, in nested observations

---
 src/pymgrid/envs/base/base.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index cc59cf7..2ce373d 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,5 +1,6 @@
 from copy import deepcopy
 
+import numpy as np
 import pandas as pd
 
 from gym import Env
@@ -226,18 +227,28 @@ class BaseMicrogridEnv(Microgrid, Env, metaclass=_MicrogridEnvMeta):
 
     def _get_obs(self, obs):
         if self.observation_keys:
-            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]]
-
             if self._flat_spaces:
-                obs = obs.values
+                obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]].values
             else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+                obs = self._get_nested_key_obs()
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
 
         return obs
 
+    def _get_nested_key_obs(self):
+        obs = {}
+
+        for name, state_dicts in self.state_dict(normalized=True).items():
+            for state_dict in state_dicts:
+                values = [state_dict[key] for key in self.observation_keys if key in state_dict]
+
+                if values:
+                    obs.setdefault(name, []).append(np.array(values) if len(values) > 1 else values[0])
+
+        return obs
+
     def render(self, mode="human"):
         """:meta private:"""
         raise NotImplementedError
-- 
2.43.0


From ed985c0506cb2f00643c994d1c61f61fd0d9e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:46 +0000
Subject: [PATCH 31/60] fix: reject a control with fewer actions than there are
 modules instead of leaving some of them behind

---
 src/pymgrid/microgrid/microgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index df7ed74..ce79092 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -266,11 +266,14 @@ class Microgrid(yaml.YAMLObject):
                 raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
             else:
                 try:
-                    _zip = zip(modules, module_controls)
+                    module_controls = list(module_controls)
                 except TypeError:
-                    _zip = zip(modules, [module_controls])
+                    module_controls = [module_controls]
 
-            for module, _control in _zip:
+            if len(module_controls) < len(modules):
+                raise ValueError(f'Module "{name}" requires {len(modules)} controls, got {len(module_controls)}.')
+
+            for module, _control in zip(modules, module_controls):
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
                 microgrid_step.append(name, *module_step)
 
-- 
2.43.0


From a6cee03c402f5ec61b002beafeb3b8595fbaf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:23 +0000
Subject: [PATCH 32/60] fix: do not log an action that is rejected for not
 being in the action space

---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From e382ad1bd856c9442d4f2b47dbc79310ce618138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:54 +0000
Subject: [PATCH 33/60] fix: let the continuous environment act on the
 controllable modules

Its action space was built from fixed sources, of which there are none, so it could not be constructed with flat
spaces nor act with nested ones, and its steps did not return observations in the declared form.
---
 src/pymgrid/envs/continuous/continuous.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..65d08d1 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,23 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                     for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+
+        if self._flat_spaces:
+            action = unflatten(self._nested_action_space, action)
+
+        return {name: list(module_actions) for name, module_actions in action.items()}
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(self._get_action(action))
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From 9f32343ce412ec946d9cb5e5bac0e455f201a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:58 +0000
Subject: [PATCH 34/60] fix: return a copy of the log that neither grows with
 it nor leads back into it

---
 src/pymgrid/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 36d33fb..5cfae3e 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -32,7 +32,7 @@ class ModularLogger(UserDict):
         self._log_length += 1
 
     def to_dict(self):
-        return self.data.copy()
+        return {k: list(v) for k, v in self.data.items()}
 
     def raw(self):
         return {k: list(map(float, v)) for k, v in self.data.items()}
-- 
2.43.0


From 57bbc45c4247d8369a62ed22d8b5dfb6965ed1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 35/60] fix: return the last entry of a module's log

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 978eb2d..251f247 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From 55fda8c7de73a95010211ac6376703c786e01565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:32 +0000
Subject: [PATCH 36/60] fix: keep the log of an environment readable that was
 converted from a microgrid in the midst of an episode

---
 src/pymgrid/microgrid/microgrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index ce79092..cf7b71c 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -461,14 +461,15 @@ class Microgrid(yaml.YAMLObject):
         for key, value in self._balance_logger.to_dict().items():
             _log_dict[('balance', 0, key)] = value
 
+        # The modules' initial step differs from self.initial_step if a trajectory is in use.
+        index = pd.RangeIndex(start=self._get_module_initial_step(), stop=self.current_step)
+
         for key, value in self._microgrid_logger.items():
-            _log_dict[(key, 0, '')] = value
+            # Steps completed before conversion to an environment have no entries here.
+            _log_dict[(key, 0, '')] = [np.nan] * (len(index) - len(value)) + value
 
         col_names = ['module_name', 'module_number', 'field']
 
-        # The modules' initial step differs from self.initial_step if a trajectory is in use.
-        index = pd.RangeIndex(start=self._get_module_initial_step(), stop=self.current_step)
-
         df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-- 
2.43.0


From 54ece617bbe30b77529f28d85da2bb663ff88611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:56 +0000
Subject: [PATCH 37/60] fix: account for the minimum production of a running
 genset in priority lists when no load remains

---
 .../algos/priority_list/priority_list.py      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/algos/priority_list/priority_list.py b/src/pymgrid/algos/priority_list/priority_list.py
index 2bbedae..0873cf4 100644
--- a/src/pymgrid/algos/priority_list/priority_list.py
+++ b/src/pymgrid/algos/priority_list/priority_list.py
@@ -89,14 +89,17 @@ class PriorityListAlgo:
                     action[module_name][module_number] = [module_action_number]
 
             if np.isclose(remaining_load, 0.0, atol=1e-4):
-                # Don't need to do anything
-                module_energy = 0.0
+                # Don't need to do anything, but a running genset produces at least its minimum
+                module_energy = self._production_bounds(module_action_number, module_to_deploy)[0]
             elif remaining_load > 0:
                 # Need to produce
                 module_energy = self._produce_from_module(module_action_number, module_to_deploy, remaining_load)
-            else:
+            elif module_to_deploy.is_sink:
                 # Need to consume. These are sources and sources_and_sinks, so need to only use sources_and_sinks.
                 module_energy = self._consume_in_module(module_to_deploy, remaining_load)
+            else:
+                # Cannot consume, but a running genset produces at least its minimum
+                module_energy = self._production_bounds(module_action_number, module_to_deploy)[0]
 
             try:
                 action[module_name][module_number].append(module_energy)
@@ -136,11 +139,8 @@ class PriorityListAlgo:
         return module_consumption
 
     def _produce_from_module(self, module_action_number, module_to_deploy, remaining_load):
-        try:
-            max_production = module_to_deploy.next_max_production(module_action_number)
-            min_production = module_to_deploy.next_min_production(module_action_number)
-        except AttributeError:
-            max_production, min_production = module_to_deploy.max_production, module_to_deploy.min_production
+        min_production, max_production = self._production_bounds(module_action_number, module_to_deploy)
+
         if min_production <= remaining_load <= max_production:
             # Module can meet demand
             module_production = remaining_load
@@ -154,6 +154,15 @@ class PriorityListAlgo:
         assert module_production >= 0
         return module_production
 
+    def _production_bounds(self, module_action_number, module_to_deploy):
+        try:
+            max_production = module_to_deploy.next_max_production(module_action_number)
+            min_production = module_to_deploy.next_min_production(module_action_number)
+        except AttributeError:
+            max_production, min_production = module_to_deploy.max_production, module_to_deploy.min_production
+
+        return min_production, max_production
+
     def _get_load(self):
         loads = dict()
         total_load = 0.0
-- 
2.43.0


From 1b106cee61fedc9a7e26a09ae8e797bbd3520377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 38/60] fix: let rule-based control run gensets that have a
 minimum production

---
 src/pymgrid/algos/rbc/rbc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..bd2673f 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -35,7 +35,8 @@ class RuleBasedControl(PriorityListAlgo):
         priority_lists = self.get_priority_lists(remove_redundant_gensets=remove_redundant_gensets)
 
         if priority_list is None:
-            return sorted(priority_lists[0])
+            # Of the lists that differ in whether gensets run, take the one in which all of them do.
+            return sorted(max(priority_lists, key=lambda pl: sum(element.action for element in pl)))
 
         if priority_list not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
-- 
2.43.0


From f3fe1aa1a6e6d7d33f784706289e30e775071fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:41 +0000
Subject: [PATCH 39/60] fix: keep the action list of a saved discrete
 environment

---
 src/pymgrid/envs/discrete/discrete.py | 24 ++++++++++++++++++++++++
 src/pymgrid/microgrid/microgrid.py    |  8 ++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 6be3899..d114267 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -56,6 +56,7 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
                          observation_keys=observation_keys)
 
         self.action_space, self.actions_list = self._get_action_space(remove_redundant_gensets)
+        self._redundant_gensets_removed, self._removed_actions = remove_redundant_gensets, []
 
     def _get_action_space(self, remove_redundant_gensets=False):
         """
@@ -105,6 +106,7 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
 
         self.actions_list.pop(action_number)
         self.action_space = Discrete(self.action_space.n - 1)
+        self._removed_actions.append(int(action_number))
 
     def step(self, action):
         """
@@ -145,6 +147,28 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
         return self.action_space.sample()
 
+    @classmethod
+    def _init_kwargs(cls, mapping):
+        kwargs = super()._init_kwargs(mapping)
+
+        if 'remove_redundant_gensets' in mapping:
+            kwargs['remove_redundant_gensets'] = mapping['remove_redundant_gensets']
+
+        return kwargs
+
+    def _serialization_data(self):
+        return {
+            **super()._serialization_data(),
+            'remove_redundant_gensets': self._redundant_gensets_removed,
+            'removed_actions': list(self._removed_actions)
+        }
+
+    def _finish_loading(self, mapping):
+        super()._finish_loading(mapping)
+
+        for action_number in mapping.get('removed_actions') or ():
+            self.remove_action(action_number)
+
     def __repr__(self):
         return f"DiscreteMicrogridEnv({super().__repr__()}"
 
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index cf7b71c..d70c94c 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -904,8 +904,16 @@ class Microgrid(yaml.YAMLObject):
         instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
+        instance._finish_loading(mapping)
         return instance
 
+    def _finish_loading(self, mapping):
+        """
+        Restore what the constructor cannot.
+
+        :meta private:
+        """
+
     @classmethod
     def _init_kwargs(cls, mapping):
         """
-- 
2.43.0


From b27a720cda32e28d42d56b1051fd921555a97eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:34 +0000
Subject: [PATCH 40/60] fix: sum the values of the modules that have one in
 reward shapers

A battery that charges has no provided energy; the discharge of all the others was then counted as zero.
---
 src/pymgrid/microgrid/reward_shaping/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index 9ed6134..77a5cd0 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -9,11 +9,8 @@ class BaseRewardShaper(yaml.YAMLObject):
 
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
-        try:
-            module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
-        except KeyError:
-            return 0.0
+        # Modules acting as a source have no absorbed energy and vice versa.
+        return sum(d.get(module_attr, 0.0) for d in info.get(module_name, []))
 
     @abstractmethod
     def __call__(self, step_info, cost_info):
-- 
2.43.0


From 77f89ba83810701e61c621dd4228995296e693b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:34 +0000
Subject: [PATCH 41/60] fix: keep the battery discharge shaper within its range

Discharging more than the load, charging without a source and steps without load made a step fail with an AssertionError.
---
 .../reward_shaping/battery_discharge_shaper.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..8084d49 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -24,11 +24,14 @@ class BatteryDischargeShaper(BaseRewardShaper):
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
         loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
+        # Batteries can discharge more than what they meet of the load, and charging them can be part of the loss load.
+        loss_load = min(loss_load, load)
+        battery_discharge = min(battery_discharge, load - loss_load)
+
+        percent_battery = (battery_discharge - loss_load) / load
+
         assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
         return percent_battery
-- 
2.43.0


From faaafb36d0cbe3936786cdaba385d1f0fc2ce853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:33 +0000
Subject: [PATCH 42/60] fix: accept integer energy amounts

A microgrid whose data are integers failed to step: the amount left to the flexible modules is a numpy integer.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 251f247..691001b 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -140,7 +140,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         try:
             denormalized_action = denormalized_action[self._energy_pos]
         except (IndexError, TypeError):
-            if not isinstance(denormalized_action, (float, int)):
+            if not isinstance(denormalized_action, (float, int, np.number)):
                 try:
                     flat_dim = np.product(denormalized_action.shape)
                     assert flat_dim == 0
-- 
2.43.0


From 01831b589e18a2750d2b082111305369ae7bec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 43/60] fix: give the battery action space its charge and
 discharge bounds the right way round

Positive actions discharge the battery, but the space was bounded above by the
maximum charge and below by the maximum discharge, so with different rates part
of the battery was unreachable and strict samples lay outside the space.
---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 0ac2de9..ae40e20 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -333,11 +333,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From acc7cafac4bb196bafd2eec5b2e46270299cc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:50 +0000
Subject: [PATCH 44/60] fix: define relative forecast noise by the whole time
 series

It was taken from the steps of the episode at construction, so that a module
restored while a trajectory was in place had another noise level.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index a0269e7..2ff2f79 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -42,7 +42,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._forecaster = get_forecaster(forecaster,
                                           self._get_observation_spaces(),
                                           forecast_shape=(self.forecast_horizon, len(self.state_components)),
-                                          time_series=self.time_series[initial_step:self.final_step, :],
+                                          time_series=self.time_series,
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
@@ -240,7 +240,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
                                           (self.forecast_horizon, len(self.state_components)),
-                                          self.time_series[self.initial_step:self._final_step, :],
+                                          self.time_series,
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
-- 
2.43.0


From b682c1631a7d3e17e8f7fd6ff9d66e4c8dc3b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:39 +0000
Subject: [PATCH 45/60] fix: let the forecast horizon change with increasing
 uncertainty

The noise of a GaussianNoiseForecaster kept the size of the horizon it was
made with, so that a longer horizon failed.
---
 src/pymgrid/forecast/forecaster.py | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index e206df0..57b61b6 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -231,40 +231,40 @@ class GaussianNoiseForecaster(Forecaster):
         self.increase_uncertainty = increase_uncertainty
         self.relative_noise = relative_noise
 
-        self._noise_size = self._forecast_shaped_space.shape
-        self._noise_std = self._get_noise_std(time_series)
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
 
-    def _get_noise_std(self, time_series):
+    def _get_scalar_noise_std(self, time_series):
         scalar_val = self.input_noise_std
         if self.relative_noise:
             if time_series is None:
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
-        if self.increase_uncertainty:
-            return scalar_val * np.outer(
-                1 + np.log(1 + np.arange(self._noise_size[0])),
-                np.ones(self._noise_size[-1])
-            )
-        else:
-            return scalar_val
+        return scalar_val
 
     def _get_noise(self, size):
+        noise_std = self.noise_std
         try:
-            return np.random.normal(scale=self._noise_std, size=size)
+            return np.random.normal(scale=noise_std, size=size)
         except ValueError:
-            noise_std = self._noise_std[:size[0], :]
-            if noise_std.shape != size:
-                raise RuntimeError(f'Cannot broadcast shapes {self._noise_std.shape} and {size}.')
+            if noise_std[:size[0], :].shape != size:
+                raise RuntimeError(f'Cannot broadcast shapes {noise_std.shape} and {size}.')
 
-            return np.random.normal(scale=noise_std, size=size)
+            return np.random.normal(scale=noise_std[:size[0], :], size=size)
 
     def _forecast(self, val_c, val_c_n, n):
         return val_c_n + self._get_noise(val_c_n.shape).reshape(val_c_n.shape)
 
     @property
     def noise_std(self):
-        return self._noise_std
+        if not self.increase_uncertainty:
+            return self._scalar_noise_std
+
+        noise_size = self._forecast_shaped_space.shape
+        return self._scalar_noise_std * np.outer(
+            1 + np.log(1 + np.arange(noise_size[0])),
+            np.ones(noise_size[-1])
+        )
 
     @noise_std.setter
     def noise_std(self, value):
-- 
2.43.0


From 2e73d90b8a783598e5f7c7422dc31c0cf1ecdadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:10 +0000
Subject: [PATCH 46/60] fix: convert the load to old-style microgrids as a
 positive series with its size

---
 src/pymgrid/convert/to_nonmodular_ops.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 1fa9a5f..2f6aa3e 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,13 +77,14 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    load = -1 * load_module.time_series
+    params_dict['load'] = pd.DataFrame(load)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=load.max())
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-    _add_to_df_status(params_dict, load=round(load_module.current_load, 1))
+    _add_to_df_status(params_dict, load=round(load[0].item(), 1))
 
 
 def add_pv_params(pv_module, params_dict):
@@ -91,7 +92,7 @@ def add_pv_params(pv_module, params_dict):
     _add_to_architecture(params_dict, 'PV')
     _add_to_parameters(params_dict, PV_rated_power=pv_module.max_act)
     _add_to_df_actions(params_dict, 'pv_consummed','pv_curtailed','pv')
-    _add_to_df_status(params_dict, pv=[pv_module.current_renewable])
+    _add_to_df_status(params_dict, pv=[pv_module.time_series[0].item()])
     _add_to_df_actual_generation(params_dict, 'pv_consummed','pv_curtailed')
     _add_to_control_dict(params_dict, 'pv_consummed', 'pv_curtailed', 'pv')
 
-- 
2.43.0


From dac16bad3ca71fa7dd1c444b749bccdb659c526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:10 +0000
Subject: [PATCH 47/60] fix: convert the dischargeable energy of a battery with
 its efficiency applied once

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 2f6aa3e..30e5d68 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -114,7 +114,7 @@ def add_battery_params(battery_module, params_dict):
                       capa_to_charge=round((battery_module.max_soc-battery_module.soc) *
                                      battery_module.max_capacity/battery_module.efficiency, 1),
                       capa_to_discharge=round((battery_module.soc-battery_module.min_soc) *
-                                        battery_module.max_capacity/battery_module.efficiency, 1)
+                                        battery_module.max_capacity*battery_module.efficiency, 1)
                       )
     _add_to_df_actual_generation(params_dict, 'battery_charge', 'battery_discharge')
     _add_to_df_cost(params_dict, 'battery')
-- 
2.43.0


From fa24afc511d90898b990d5c949dabfac04a860f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:37 +0000
Subject: [PATCH 48/60] fix: let converted microgrids without grid and genset
 run

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 30e5d68..0e06b8d 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -56,6 +56,8 @@ def check_viability(modular):
 
 
 def finalize_params(params_dict):
+    if 'cost_co2' not in params_dict['parameters']:
+        _add_cost_co2(params_dict, 0.0)
     params_dict['parameters'] = pd.DataFrame(params_dict['parameters'])
 
 
-- 
2.43.0


From d40250391bd1aaab20aee27d37c1d22085af958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:12 +0000
Subject: [PATCH 49/60] fix: report the grid's second step after the first step
 of an old-style microgrid

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..fd7073e 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From bcbc4dcc41f235f3855228642f1e64c2cb572cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:47 +0000
Subject: [PATCH 50/60] fix: charge an old-style microgrid's battery by what it
 moved also without a grid

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index fd7073e..c303906 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From 5f4fed1c74365774476440f1f406dfb4344c5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:58 +0000
Subject: [PATCH 51/60] fix: let an old-style microgrid meet its load exactly
 without its PV

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index c303906..1be35bb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1066,7 +1066,7 @@ class NonModularMicrogrid:
             overgeneration = 0
 
         else:                                               # overgeneration. Requires NO pv whatsoever
-            assert pv_required < 0
+            assert pv_required <= 0
             pv_consumed = 0
             loss_load = 0
             pv_curtailed = pv_available if pv_available > 0 else 0
-- 
2.43.0


From 8b8e5309de66c5b79319407a9570a49b1b955236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:41 +0000
Subject: [PATCH 52/60] fix: keep an old-style battery's state current after
 the last step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1be35bb..18d27db 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -660,6 +660,7 @@ class NonModularMicrogrid:
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
             self.done = True
+            self.update_variables()
             return self.get_updated_values()
 
         self._tracking_timestep += 1
-- 
2.43.0


From 9a21ad8142512c118057cf50d73976a463af2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:34 +0000
Subject: [PATCH 53/60] fix: ask a grid for its control again after as_fixed

---
 src/pymgrid/modules/grid_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 9fb249e..cf4a6b8 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -240,10 +240,10 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         """
         Convert the module to a fixed module.
 
-        Flex modules require a control to be passed.
+        Fixed modules require a control to be passed.
 
         """
-        self.module_type = (self.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'controllable')
 
     @property
     def import_price(self):
-- 
2.43.0


From 1a967cd54c3ed88d172c40614e944ced033f3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:33 +0000
Subject: [PATCH 54/60] fix: keep a flex grid flex when saved and restored

---
 src/pymgrid/modules/grid_module.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index cf4a6b8..3c7c54e 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -245,6 +245,18 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         """
         self.module_type = (self.module_type[0], 'controllable')
 
+    def _serialize_state_attributes(self):
+        state = super()._serialize_state_attributes()
+        if self.module_type[-1] == 'flex':
+            state['flex'] = True
+        return state
+
+    def deserialize(self, serialized_dict):
+        serialized_dict = serialized_dict.copy()
+        if serialized_dict.pop('flex', False):
+            self.as_flex()
+        return super().deserialize(serialized_dict)
+
     @property
     def import_price(self):
         """
-- 
2.43.0


From 4900b1293e7503e081a24b1c7d32ddf9cc6eda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 55/60] fix: forecast anew, within the new bounds, when a
 module's time series is set

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 2ff2f79..90b0e1f 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -157,7 +157,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._time_series = self._set_time_series(value)
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
-        self._observation_space = self._get_observation_spaces()
+        self.set_forecaster(self._forecast_param,
+                            forecast_horizon=self._forecast_horizon,
+                            forecaster_increase_uncertainty=self.forecaster_increase_uncertainty,
+                            forecaster_relative_noise=self.forecaster_relative_noise)
 
     @property
     def min_obs(self):
-- 
2.43.0


From 91d978f5def145bd48a33925010ccf3317f07e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 56/60] fix: hand user-defined forecasters copies of the time
 series

---
 src/pymgrid/forecast/forecaster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 57b61b6..ef33684 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -208,7 +208,8 @@ class UserDefinedForecaster(Forecaster):
         return forecast
 
     def _forecast(self, val_c, val_c_n, n):
-        forecast = self._forecaster(val_c, val_c_n, n)
+        # The values are a view of the time series, which is not the forecaster's to change.
+        forecast = self._forecaster(np.array(val_c), np.array(val_c_n), n)
         return self._cast_to_arr(forecast, val_c_n)
 
 
@@ -281,6 +282,7 @@ class NoForecaster(Forecaster):
 
 
 def _validate_callable_forecaster(forecaster, time_series):
+    time_series = np.array(time_series)
     val_c = time_series[0]
     n = np.random.randint(2, len(time_series))
     vector_true_forecast = time_series[:n]
-- 
2.43.0


From 338bc4ecfbf4135733cf592edd32c4ac52600fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:46 +0000
Subject: [PATCH 57/60] fix: accept forecasts that a user-defined forecaster
 returns as a list or flat array

---
 src/pymgrid/forecast/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index ef33684..de2a717 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,8 +204,8 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
-        return forecast
+            forecast = np.array(forecast)
+        return forecast.reshape(val_c_n.shape)
 
     def _forecast(self, val_c, val_c_n, n):
         # The values are a view of the time series, which is not the forecaster's to change.
-- 
2.43.0


From 6d3df834577bc92e24a4be49b683ac7ccdcc6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:29 +0000
Subject: [PATCH 58/60] fix: get_log(drop_singleton_key=True) drops the module
 number as documented

---
 src/pymgrid/microgrid/microgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index d70c94c..fd686fc 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -473,8 +473,8 @@ class Microgrid(yaml.YAMLObject):
         df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-        if drop_singleton_key:
-            df.columns = df.columns.remove_unused_levels()
+        if drop_singleton_key and all(len(modules) == 1 for _, modules in self._modules.iterdict()):
+            df.columns = df.columns.droplevel('module_number')
 
         if as_frame:
             return df
-- 
2.43.0


From 38594e06f7121530453160b7d06b2183e4821f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:19 +0000
Subject: [PATCH 59/60] fix: tell a scalar user-defined forecaster how many
 steps ahead it forecasts

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index de2a717..82f8510 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -367,7 +367,7 @@ def vectorize_scalar_forecaster(forecaster):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
         elif len(val_c_n) == 0:  # At the end of the time series; there is nothing left to forecast.
             return np.array(val_c_n, dtype=np.float64)
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n, start=1)])
         try:
             shape = (-1, vectorized_output.shape[1])
         except IndexError:
-- 
2.43.0


From 67d5459db7cb426147364855ea057213ff2032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:46 +0000
Subject: [PATCH 60/60] fix: keep logged actions at their steps when a discrete
 environment is converted to a continuous one

---
 src/pymgrid/envs/continuous/continuous.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 65d08d1..046d17d 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -70,7 +70,13 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
         return {name: list(module_actions) for name, module_actions in action.items()}
 
     def step(self, action):
-        obs, reward, done, info = super().run(self._get_action(action))
+        microgrid_action = self._get_action(action)
+
+        if len(self._microgrid_logger):
+            # The environment was converted from one that logs its actions in the midst of an episode.
+            self._microgrid_logger.log()
+
+        obs, reward, done, info = super().run(microgrid_action)
         return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
-- 
2.43.0

