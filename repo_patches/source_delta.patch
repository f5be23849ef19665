From 37bd48d31ab29f3e0c2769b7e10d8dac7dabe02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:48 +0000
Subject: [PATCH 01/54] fix: refuse one module name for modules of different
 kinds instead of dropping one

---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..8f4d33c 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        if module_names.setdefault(module_name, (fixed_flex_controllable, source_sink_both)) != \
+                (fixed_flex_controllable, source_sink_both):
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From 30100d0294a312574945eeabd82c15ec69686b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:18 +0000
Subject: [PATCH 02/54] fix: stochastic trajectories always end after they
 start

The end was drawn from [initial, final_step) and could equal the start, and
bounds two steps apart or less raised from randint.
---
 src/pymgrid/microgrid/trajectory/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..b3fe3e5 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -8,8 +8,8 @@ class StochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
 
-        initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        initial = np.random.randint(initial_step, final_step)
+        final = np.random.randint(initial+1, final_step+1)
 
         return initial, final
 
-- 
2.43.0


From 04a1df939c6f08fef07177b6b775c1a2e2aff823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:18 +0000
Subject: [PATCH 03/54] fix: allow a fixed-length trajectory that fills the
 whole window

randint excludes its upper bound, so a window of exactly trajectory_length
steps raised ValueError and the last start was never drawn.
---
 src/pymgrid/microgrid/trajectory/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index b3fe3e5..f413baa 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From dff1bdb097ed9edb401a95ad62d7f2ae3694cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:18 +0000
Subject: [PATCH 04/54] fix: label the microgrid log with the steps of the
 episode

get_log used the initial step of the microgrid; after a trajectory had moved
the start of the episode the index had the wrong length and get_log raised.
---
 src/pymgrid/microgrid/microgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..ae14e20 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,10 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        current_step = self.current_step
+        index = pd.RangeIndex(start=current_step-len(self._balance_logger), stop=current_step)
+
+        df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From c7bb161e66a8c412200128137798dab4d0265387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 05/54] fix: restore loaded logs as lists

A log read back from yaml arrives as a DataFrame, whose columns became Series
that the next logged step could not be appended to.
---
 src/pymgrid/utils/logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..bef90aa 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -48,4 +48,6 @@ class ModularLogger(UserDict):
             return cls()
         elif isinstance(raw, str):
             raw = pd.read_csv(raw).to_dict()
+        elif isinstance(raw, pd.DataFrame):
+            raw = raw.to_dict(orient='list')
         return cls(raw)
-- 
2.43.0


From f8104308fbd4d24bcfe07121f0d2248ad65bc7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 06/54] fix: GridModule.as_flex and as_fixed convert only this
 module

They rewrote the class attribute and so converted every other grid module too.
---
 src/pymgrid/modules/grid_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..9fb249e 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -234,7 +234,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
@@ -243,7 +243,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'fixed')
 
     @property
     def import_price(self):
-- 
2.43.0


From dde56d40bf6141fc8213b6cd32eba93d19386677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 07/54] fix: Microgrid.set_forecaster applies forecasters given
 per module name

The method was looked up on the list of modules, and the resulting
AttributeError was swallowed, so a dict of forecasters was ignored.
---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index ae14e20..eb91664 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -532,15 +532,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From c636902629552cc5e3ab4b63dc1317da4ce69cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 08/54] fix: a new forecaster or horizon takes effect in the
 current state

The cached forecast was kept until the next step, so state and state_dict mixed
the new keys with the old forecast.
---
 .../modules/base/timeseries/base_timeseries_module.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..eb70fb9 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -234,7 +234,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._set_forecast_horizon(forecast_horizon * (forecaster is not None))
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -243,6 +243,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
+        self._current_forecast = self.forecast()
+
     @property
     def forecast_horizon(self):
         """
@@ -258,6 +260,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
     @forecast_horizon.setter
     def forecast_horizon(self, value):
+        self._set_forecast_horizon(value)
+        self._current_forecast = self.forecast()
+
+    def _set_forecast_horizon(self, value):
 
         self._forecast_horizon = value
         self._state_dict_keys = self._set_state_dict_keys()
-- 
2.43.0


From 19eca575d34c5ad2f5dca517072da43fd00d8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:37 +0000
Subject: [PATCH 09/54] fix: forecast from the restored or assigned step

Loading a module, or assigning current_step, kept the forecast of the initial
step in the state until the next step was taken.
---
 .../base/timeseries/base_timeseries_module.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index eb70fb9..54e39d4 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -121,6 +121,15 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         return None if forecast is None else forecast
 
+    @property
+    def current_step(self):
+        return self._current_step
+
+    @current_step.setter
+    def current_step(self, value):
+        self._current_step = value
+        self._current_forecast = self.forecast()
+
     def _done(self):
         return self._current_step >= self._final_step - 1
 
@@ -351,5 +360,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 4ce0ef2bd2c313be7211cfda717e3fdf14feef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:50 +0000
Subject: [PATCH 10/54] fix: save the forecaster in use

serialize wrote the forecaster passed at construction, also after it had been
replaced by set_forecaster or by setting a forecast horizon.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 54e39d4..8ffafe0 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -252,6 +252,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
+        self._forecast_param = forecaster
         self._current_forecast = self.forecast()
 
     @property
@@ -284,6 +285,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
+            self._forecast_param = "oracle"
 
         self._forecaster.observation_space = self._observation_space
 
-- 
2.43.0


From f70e217d7d4bf7959c5deb6f7e1b12f10cdb011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:50 +0000
Subject: [PATCH 11/54] fix: forecasts follow a newly assigned time series

The forecaster kept the bounds of the old series, and since an oracle forecast is
a view of the series, clipping it to them overwrote the new series itself.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 8ffafe0..a9107b6 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -167,6 +167,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
+        self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def min_obs(self):
-- 
2.43.0


From db6c57be3034b7037ee535003ddb73bb8bee4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 12/54] fix: refuse a control with too few entries for a module
 name

The modules beyond the end of the control list were silently not stepped, and
fell behind the rest of the microgrid.
---
 src/pymgrid/microgrid/microgrid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index eb91664..f2ec908 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -266,9 +266,12 @@ class Microgrid(yaml.YAMLObject):
                 raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
             else:
                 try:
-                    _zip = zip(modules, module_controls)
+                    _zip = list(zip(modules, module_controls))
                 except TypeError:
-                    _zip = zip(modules, [module_controls])
+                    _zip = list(zip(modules, [module_controls]))
+
+                if len(_zip) < len(modules):
+                    raise ValueError(f'Too few controls for "{name}": expected {len(modules)}, got {len(_zip)}.')
 
             for module, _control in _zip:
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
-- 
2.43.0


From f3c56e9453d187e59fbd312b7c88074a2153b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:35 +0000
Subject: [PATCH 13/54] fix: sort modules into containers by their own
 module_type

A single grid converted with as_flex or as_fixed carries its type on the instance.
---
 src/pymgrid/modules/module_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 8f4d33c..407ef9f 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         if module_names.setdefault(module_name, (fixed_flex_controllable, source_sink_both)) != \
                 (fixed_flex_controllable, source_sink_both):
-- 
2.43.0


From b0ae01611f47c1d9d21441d44c10e9e7e64f364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 14/54] fix: do not log an action the environment refuses

The action was logged before it was validated, which left the log one row longer
than the episode and made get_log raise.
---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From 9df7f2cc217cd25e5f1087de6119683d070631d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:36 +0000
Subject: [PATCH 15/54] fix: normalized state_dict of modules with one state
 component

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..7104a76 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 0716daa2592da1851c2d65d0e40ce910fe6e265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:25 +0000
Subject: [PATCH 16/54] fix: scalar user forecasters near the end of the series

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..3ee7dd0 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,7 +361,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if n < len(val_c_n):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
         try:
-- 
2.43.0


From 3d7940342bcbefd7bfe056a1c2fe59773899aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:14 +0000
Subject: [PATCH 17/54] fix: user forecasters that return a list

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 3ee7dd0..322782d 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,7 +204,7 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
+            return np.array(forecast).reshape(val_c_n.shape)
         return forecast
 
     def _forecast(self, val_c, val_c_n, n):
-- 
2.43.0


From 625311b4f7787acec11845e39fc76ec28a539053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:25 +0000
Subject: [PATCH 18/54] fix: a longer horizon for a forecaster with increasing
 uncertainty

---
 src/pymgrid/forecast/forecaster.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 322782d..2479722 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -161,6 +161,10 @@ class Forecaster:
             self._forecast_shaped_space.shape[1]
         )
         self._forecast_shaped_space = self._get_forecast_shaped_space(new_shape)
+        self._forecast_shape_changed()
+
+    def _forecast_shape_changed(self):
+        pass
 
     def __eq__(self, other):
         if type(self) != type(other):
@@ -232,15 +236,25 @@ class GaussianNoiseForecaster(Forecaster):
         self.relative_noise = relative_noise
 
         self._noise_size = self._forecast_shaped_space.shape
-        self._noise_std = self._get_noise_std(time_series)
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
+        self._noise_std = self._get_noise_std()
+
+    def _forecast_shape_changed(self):
+        self._noise_size = self._forecast_shaped_space.shape
+        self._noise_std = self._get_noise_std()
 
-    def _get_noise_std(self, time_series):
+    def _get_scalar_noise_std(self, time_series):
         scalar_val = self.input_noise_std
         if self.relative_noise:
             if time_series is None:
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
+        return scalar_val
+
+    def _get_noise_std(self):
+        scalar_val = self._scalar_noise_std
+
         if self.increase_uncertainty:
             return scalar_val * np.outer(
                 1 + np.log(1 + np.arange(self._noise_size[0])),
-- 
2.43.0


From 41faa513fb69a1f933f1abc5340db65267f62ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:14 +0000
Subject: [PATCH 19/54] fix: reward shapers count the modules that report a
 value when others do not

---
 src/pymgrid/microgrid/reward_shaping/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..542b53d 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -11,10 +11,11 @@ class BaseRewardShaper(yaml.YAMLObject):
     def sum_module_val(info, module_name, module_attr):
         try:
             module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
         except KeyError:
             return 0.0
 
+        return sum([d.get(module_attr, 0.0) for d in module_info])
+
     @abstractmethod
     def __call__(self, step_info, cost_info):
         pass
-- 
2.43.0


From ceeb9c63e812dd5fefdbdb99d750e385e37bc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:14 +0000
Subject: [PATCH 20/54] fix: BatteryDischargeShaper counts loss load of the
 default balancing module

---
 .../microgrid/reward_shaping/battery_discharge_shaper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..a7f4f85 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -22,13 +22,14 @@ class BatteryDischargeShaper(BaseRewardShaper):
     def __call__(self, step_info, cost_info):
         battery_discharge = self.sum_module_val(step_info, 'battery', 'provided_energy')
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
-        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
+        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy') + \
+            self.sum_module_val(step_info, 'balancing', 'provided_energy')
 
         # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
+        percent_battery = (battery_discharge - loss_load) / load
+
         assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
         return percent_battery
-- 
2.43.0


From e7eaae5d4679fc86b59537e8d35cf1084633f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:19 +0000
Subject: [PATCH 21/54] fix: BatteryDischargeShaper stays in its documented
 range instead of failing the step

---
 .../microgrid/reward_shaping/battery_discharge_shaper.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index a7f4f85..9bc406f 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -25,11 +25,10 @@ class BatteryDischargeShaper(BaseRewardShaper):
         loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy') + \
             self.sum_module_val(step_info, 'balancing', 'provided_energy')
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
         if load == 0:
             return 0.0
 
         percent_battery = (battery_discharge - loss_load) / load
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
-        return percent_battery
+        # Discharge that is exported or loss load that charges a battery can exceed the load.
+        return float(np.clip(percent_battery, -1, 1))
-- 
2.43.0


From 2243e740b0eab74c4047f9a67d0e110ba19ae630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:42 +0000
Subject: [PATCH 22/54] fix: default rule-based control runs the generator
 instead of keeping it off

---
 src/pymgrid/algos/rbc/rbc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..e7e90fa 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -35,7 +35,8 @@ class RuleBasedControl(PriorityListAlgo):
         priority_lists = self.get_priority_lists(remove_redundant_gensets=remove_redundant_gensets)
 
         if priority_list is None:
-            return sorted(priority_lists[0])
+            # At equal cost a running genset precedes an idle one, see PriorityListElement.
+            return min(sorted(pl) for pl in priority_lists)
 
         if priority_list not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
-- 
2.43.0


From 990dd1e22250accec91305142ff90c13f72eb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:11 +0000
Subject: [PATCH 23/54] fix: environment observations follow the declared
 observation space

---
 src/pymgrid/envs/base/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..133c814 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from gym import Env
@@ -210,14 +211,14 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     def _get_obs(self, obs):
         if self.observation_keys:
-            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]]
+            state_dict = self.state_dict(normalized=True)
+            obs = {name: [[sd[key] for key in self.observation_keys if key in sd] for sd in sd_list]
+                   for name, sd_list in state_dict.items()}
+            obs = {name: [o for o in module_obs if o] for name, module_obs in obs.items()}
 
-            if self._flat_spaces:
-                obs = obs.values
-            else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+        obs = {name: [np.atleast_1d(o) for o in obs[name]] for name in self._nested_observation_space}
 
-        elif self._flat_spaces:
+        if self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
 
         return obs
-- 
2.43.0


From 2611a56c3346952212aeecca2d690a7ca4a19d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:26 +0000
Subject: [PATCH 24/54] fix: environment observation space follows a new
 forecaster

---
 src/pymgrid/envs/base/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 133c814..66a6635 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -223,6 +223,13 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         return obs
 
+    def set_forecaster(self, *args, **kwargs):
+        """
+        Set the forecaster as in :meth:`.Microgrid.set_forecaster` and adapt the observation space to it.
+        """
+        super().set_forecaster(*args, **kwargs)
+        self.observation_space, self._nested_observation_space = self._get_observation_space()
+
     def render(self, mode="human"):
         """:meta private:"""
         raise NotImplementedError
-- 
2.43.0


From 0d7e5e84c954d6efea494e2b0e6476b51f8d7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:26 +0000
Subject: [PATCH 25/54] fix: ContinuousMicrogridEnv acts on the controllable
 modules

---
 src/pymgrid/envs/continuous/continuous.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..9ac4cf1 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,19 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                                 for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+        return unflatten(self._nested_action_space, action) if self._flat_spaces else action
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(self._get_action(action))
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From 164a75a0419c42ab63998214cbb69a1dbea0d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 26/54] fix: sampling a generator action within strict bounds

---
 src/pymgrid/modules/genset_module.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..2a41155 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -346,7 +346,14 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        if not strict_bound:
+            return np.array([np.random.rand(), super().sample_action()])
+
+        goal_status = np.random.rand()
+        status = round(goal_status)
+        _, min_bound = self.to_normalized(np.array([goal_status, self.next_min_production(status)]), act=True)
+        _, max_bound = self.to_normalized(np.array([goal_status, self.next_max_production(status)]), act=True)
+        return np.array([goal_status, np.random.rand() * (max_bound - min_bound) + min_bound])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From 998dd4cda5235d70df0c49ef0febf66bffd67e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 27/54] fix: battery action range uses the charge limit for
 charging and the discharge limit for discharging

---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..945742b 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -331,11 +331,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From aea4ddbe0ca7f0abf4f15a7dabae0550a1a219d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:20 +0000
Subject: [PATCH 28/54] fix: logger_last iterates over the logged items

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 7104a76..d1fad86 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From 5618ae97d7a0c102bd02b1ee4a01105a0a466f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:39 +0000
Subject: [PATCH 29/54] fix: to_nonmodular does not reseed the global random
 generator

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..4543504 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -227,9 +227,9 @@ def _add_cost_co2(params_dict, cost_co2):
 
 
 def _add_genset_polynom(params_dict):
-    np.random.seed(0)
+    rng = np.random.RandomState(0)
     warn('Getting genset_polynom parameters randomly')
-    polynom = [np.random.rand() * 10, np.random.rand(), np.random.rand() / 10]
+    polynom = [rng.rand() * 10, rng.rand(), rng.rand() / 10]
 
     to_add = dict(genset_polynom_order= len(polynom))
     to_add.update({f'genset_polynom_{i}': pn for i, pn in enumerate(polynom)})
-- 
2.43.0


From 82df3fc16f2bf4ff5c60d98e6f1c3cc18995d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:47 +0000
Subject: [PATCH 30/54] fix: arrays of modules of the same class are dumped to
 separate files

---
 src/pymgrid/modules/base/base_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index d1fad86..efbaec0 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -847,7 +847,9 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        # Modules of the same class need separate directories for their array-like data.
+        location = '/'.join([self.yaml_tag, *(str(part) for part in self.name if part is not None)])
+        return dump_data(data, dumper_stream, location)
 
     def serializable_state_attributes(self):
         """
-- 
2.43.0


From a072483c403efe90d8f6853801d252e86b8b8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:00 +0000
Subject: [PATCH 31/54] fix: data loaded from csv files equals the dumped data
 exactly

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..04cb7ee 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -102,7 +102,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From c8028a8790842d0617e94aaf6737cacbe5651591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:56 +0000
Subject: [PATCH 32/54] fix: microgrids with a stochastic trajectory can be
 saved

---
 src/pymgrid/microgrid/trajectory/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..cbb0d13 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,10 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        # The default state of an object without attributes is None, which yaml cannot represent.
+        return self.__dict__
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
-- 
2.43.0


From c02642c6be71c1041d7a0b0c59808c40d8e2ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:10 +0000
Subject: [PATCH 33/54] fix: saving a microgrid keeps its reward shaping
 function

---
 src/pymgrid/microgrid/microgrid.py           | 7 +++++++
 src/pymgrid/microgrid/reward_shaping/base.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index f2ec908..c09f274 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -895,6 +895,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -906,8 +907,14 @@ class Microgrid(yaml.YAMLObject):
         return dump_data(self._serialization_data(), dumper_stream, self.yaml_tag)
 
     def _serialization_data(self):
+        reward_shaping_func = self.reward_shaping_func
+        if reward_shaping_func is not None and not isinstance(reward_shaping_func, yaml.YAMLObject):
+            warn(f'Unable to serialize reward_shaping_func={reward_shaping_func}, it will not be restored.')
+            reward_shaping_func = None
+
         return {
             "modules": self._modules.to_tuples(),
+            'reward_shaping_func': reward_shaping_func,
             'trajectory_func': self.trajectory_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index 542b53d..8d44474 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -20,5 +20,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        # The default state of an object without attributes is None, which yaml cannot represent.
+        return self.__dict__
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
-- 
2.43.0


From 3e415d2a93fd57e26deeae42e6e5f595d75cbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:33 +0000
Subject: [PATCH 34/54] fix: stochastic trajectories can be printed and
 compared

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index cbb0d13..a98459c 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -18,7 +18,7 @@ class BaseTrajectory(yaml.YAMLObject):
 
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
-        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
+        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
         return f'{self.__class__.__name__}({formatted_params})'
 
     def __eq__(self, other):
-- 
2.43.0


From c0f433ccdb7d5ad3105f4306c24b6c591dd9c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:11 +0000
Subject: [PATCH 35/54] fix: state of charge of a microgrid without grid
 follows the actual production

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From e65639df9108b5cead9af8c18888be0bb80dc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:11 +0000
Subject: [PATCH 36/54] fix: non-modular step with nothing left for the pv to
 serve

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..0250584 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1066,7 +1066,7 @@ class NonModularMicrogrid:
             overgeneration = 0
 
         else:                                               # overgeneration. Requires NO pv whatsoever
-            assert pv_required < 0
+            assert pv_required <= 0
             pv_consumed = 0
             loss_load = 0
             pv_curtailed = pv_available if pv_available > 0 else 0
-- 
2.43.0


From 8efaa1b31cddf6632ebc216d4e116c0dec70a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:11 +0000
Subject: [PATCH 37/54] fix: grid data of the state after the first non-modular
 step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 0250584..1be35bb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From b2b2458eee22b9bc4b81f801c110f4c3372dcf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:11 +0000
Subject: [PATCH 38/54] fix: running a non-modular microgrid leaves the
 caller's control alone

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1be35bb..242050d 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -626,6 +626,7 @@ class NonModularMicrogrid:
 
         """
 
+        control_dict = dict(control_dict)
         control_dict['load'] = self.load
         control_dict['pv'] = self.pv
 
-- 
2.43.0


From 701e410b5c1ea38a73a6f23a355e18229d95cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:26 +0000
Subject: [PATCH 39/54] fix: loads of converted non-modular microgrids are
 non-negative

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 4543504..6324e6b 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,9 +77,9 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=-1 * load_module.time_series.min())
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-- 
2.43.0


From 79865c5320a4703261956bf29ffedf88b86a6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:02 +0000
Subject: [PATCH 40/54] fix: converted microgrids without grid and generator
 can be run

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 6324e6b..0d6b12e 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -56,6 +56,10 @@ def check_viability(modular):
 
 
 def finalize_params(params_dict):
+    # Needed for every step, also without a module that emits carbon.
+    params_dict['parameters'].setdefault('cost_co2', 0.0)
+    params_dict['df_cost'].setdefault('co2', [])
+
     params_dict['parameters'] = pd.DataFrame(params_dict['parameters'])
 
 
-- 
2.43.0


From 22d4014d22ce7431bff1591231f0922455733d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 41/54] fix: predictive control of microgrids whose battery is
 not named battery

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..cc3d13f 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -197,7 +197,7 @@ class ModelPredictiveControl:
         return eta, battery_capacity, fuel_cost, cost_battery_cycle, cost_loss_load, p_genset_min, p_genset_max, cost_co2, genset_co2
 
     def _parse_modular_microgrid(self):
-        battery = self.microgrid.battery.item()
+        battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
 
         eta = battery.efficiency
         battery_capacity = battery.max_capacity
@@ -921,8 +921,8 @@ class ModelPredictiveControl:
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
         try:
-            battery = self.microgrid.battery.item()
-        except AttributeError:
+            battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
+        except KeyError:
             raise ValueError(f"Microgrid {self.microgrid} has no battery.")
         else:
             e_min = battery.min_soc
-- 
2.43.0


From 426af7e9f0188cc7adc34571415614a4620c46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:57 +0000
Subject: [PATCH 42/54] fix: predictive control of modular microgrids respects
 grid outages

---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index cc3d13f..54492e2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From 8863dbc59c948b0b1e9496c0c8467612fba1c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:57 +0000
Subject: [PATCH 43/54] fix: predictive control counts exports as income

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 54492e2..8042aff 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1 * export_price.reshape(-1)
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1 * export_price.reshape(-1)
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From d26e842cbfd79d471d3bfd125743803aa11b610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:03 +0000
Subject: [PATCH 44/54] fix: a refused generator step leaves its status alone

---
 src/pymgrid/modules/genset_module.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 2a41155..4e12f0f 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -145,8 +145,16 @@ class GensetModule(BaseMicrogridModule):
         """
         goal_status = action[0]
         assert 0 <= goal_status <= 1
+
+        status = self._current_status, self._goal_status, self._steps_until_up, self._steps_until_down
         self.update_status(goal_status)
-        return super().step(action, normalized=normalized)
+
+        try:
+            return super().step(action, normalized=normalized)
+        except ValueError:
+            # The request was refused: the status is as it was before it.
+            self._current_status, self._goal_status, self._steps_until_up, self._steps_until_down = status
+            raise
 
     def get_co2(self, production):
         """
-- 
2.43.0


From 38f8c706da94f04f775af387d29d29c9d8088f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 45/54] fix: continuous environments can be saved

---
 src/pymgrid/envs/continuous/continuous.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 9ac4cf1..764331c 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,3 +1,5 @@
+import yaml
+
 from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
@@ -51,6 +53,10 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
         If None, :attr:`.initial_step` and :attr:`.final_step` are used to define every episode.
 
     """
+    yaml_tag = u"!ContinuousMicrogridEnv"
+    yaml_loader = yaml.SafeLoader
+    yaml_dumper = yaml.SafeDumper
+
     _nested_action_space = None
 
     def _get_nested_action_space(self):
-- 
2.43.0


From 73ce41cfcb8cd3d98b8facda8c2676ce73e7bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 46/54] fix: loading a saved environment keeps its logs and
 episode bounds

---
 src/pymgrid/envs/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 66a6635..313ae9f 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -308,4 +308,5 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     @classmethod
     def load(cls, stream):
-        return cls(super().load(stream))
+        microgrid = super().load(stream)
+        return microgrid if isinstance(microgrid, cls) else cls.from_microgrid(microgrid)
-- 
2.43.0


From c631c596eed71ac03c9643569a0e27a8a67e2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:27 +0000
Subject: [PATCH 47/54] fix: environments built from a microgrid keep its
 episode bounds

---
 src/pymgrid/envs/base/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 313ae9f..b777859 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -290,7 +290,9 @@ class BaseMicrogridEnv(Microgrid, Env):
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
         kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
-        return cls(modules.to_tuples(), **kwargs)
+        env = cls(modules.to_tuples(), **kwargs)
+        env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+        return env
 
     @classmethod
     def from_nonmodular(cls, nonmodular, **kwargs):
-- 
2.43.0


From 7c31fc60a57e8741b2d9ca19d16cd071021d6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:49 +0000
Subject: [PATCH 48/54] fix: environments built from a microgrid that was run
 start with empty logs

---
 src/pymgrid/envs/base/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index b777859..03d60ce 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -292,6 +292,10 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         env = cls(modules.to_tuples(), **kwargs)
         env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+
+        for module in env.modules.iterlist():
+            module.logger.flush()
+
         return env
 
     @classmethod
-- 
2.43.0


From 19a72ab26ded9cb0701b21aa0726135121ef3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:07 +0000
Subject: [PATCH 49/54] fix: discharge capacity of converted microgrids
 accounts for the efficiency

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 0d6b12e..4ff8498 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -117,7 +117,7 @@ def add_battery_params(battery_module, params_dict):
                       capa_to_charge=round((battery_module.max_soc-battery_module.soc) *
                                      battery_module.max_capacity/battery_module.efficiency, 1),
                       capa_to_discharge=round((battery_module.soc-battery_module.min_soc) *
-                                        battery_module.max_capacity/battery_module.efficiency, 1)
+                                        battery_module.max_capacity*battery_module.efficiency, 1)
                       )
     _add_to_df_actual_generation(params_dict, 'battery_charge', 'battery_discharge')
     _add_to_df_cost(params_dict, 'battery')
-- 
2.43.0


From b5fb17f1d79c1a25777ea67d2cfdf114da2c8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 50/54] fix: rule-based control of non-modular microgrids keeps
 the generator at its minimum output

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..4420d43 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load > 0 or min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 21546ce6da634cfa4ae885698b55138f0704059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 51/54] fix: the rule-based benchmark of non-modular microgrids
 runs

---
 src/pymgrid/algos/Control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..a613905 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,8 +287,8 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
-- 
2.43.0


From 5fdd9382d2ca19d7a5c16482707a704638a26ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 52/54] fix: control outputs are compared by their total cost

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index a613905..e489c46 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From 7ccc409e75daffd4c6e5b47d5fba586d44c1a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 53/54] fix: showing a control output as a frame leaves it
 alone

---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index e489c46..b9b8ebb 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -206,7 +206,7 @@ class ControlOutput(dict):
             for k_2, v_2 in v_1.items():
                 if len(v_2) > max_len:
                     max_len = len(v_2)
-                d[(k_1, k_2)] = v_2
+                d[(k_1, k_2)] = list(v_2)
 
         for _, v in d.items():
             if len(v) < max_len:
-- 
2.43.0


From 00ab501bea80fadb848a701f7e376d0ab957565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:57 +0000
Subject: [PATCH 54/54] fix: the last row of a training or testing set can be
 reached without reading past its end

---
 .../_deprecated/non_modular_microgrid.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 242050d..98c278b 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -749,16 +749,22 @@ class NonModularMicrogrid:
             self.pv = self._pv_train.iloc[self._tracking_timestep, 0]
             self.load = self._load_train.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
-            self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
+                self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
 
         if self._data_set_to_use == 'testing':
             self.pv = self._pv_test.iloc[self._tracking_timestep, 0]
             self.load = self._load_test.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
-            self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
+                self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
         if self._data_set_to_use == 'all':
             self.pv = self._pv_ts.iloc[self._tracking_timestep, 0]
@@ -779,10 +785,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_train.iloc[self._tracking_timestep,0]
                 self.grid.co2 = self._grid_co2_train.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
             if self._data_set_to_use == 'testing':
                 self.grid.status = self._grid_status_test.iloc[self._tracking_timestep, 0]
@@ -790,10 +800,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_test.iloc[self._tracking_timestep, 0]
                 self.grid.co2 = self._grid_co2_test.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
 
             if self._data_set_to_use == 'all':
-- 
2.43.0

