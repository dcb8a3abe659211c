From 098b57e430979b78ac00a02b34f9ea863503eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:51 +0000
Subject: [PATCH 01/20] fix: use default factories for dataclass fields so the
 core imports on Python 3.11+

BalloonState's unit-valued defaults and the VAE modules' FieldShape default
are unhashable, which dataclasses reject since Python 3.11: the environment,
the agents and the training and evaluation code could not be imported.
---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 .../generative/vae.py                         |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..9fcd3a6 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -23,7 +23,7 @@ import jax
 import jax.numpy as jnp
 
 
-@dataclasses.dataclass
+@dataclasses.dataclass(frozen=True)
 class FieldShape:
   """Class to parameterize the shape of the VAE field."""
 
-- 
2.43.0


From fc6662ef77aee4e1fdf10ce76c32bf64eeeed2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 02/20] fix: simulate exactly the requested duration when it is
 not whole seconds

simulate_step truncated time_delta and stride to whole seconds before
dividing, so durations that are not a multiple of the stride were accepted
(180.5 s ran as 180 s), a 2.5 s stride simulated 12.5 s for 10 s, and a
0.5 s stride divided by zero.
---
 balloon_learning_environment/env/balloon/balloon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..085b59d 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -322,13 +322,11 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
+    assert time_delta % stride == dt.timedelta(0), (
         f'The outer simulation stride (time_delta={time_delta}) must be a '
         f'multiple of the inner simulation stride (stride={stride})')
 
-    for _ in range(outer_stride // inner_stride):
+    for _ in range(time_delta // stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
       for k, v in state_changes.items():
-- 
2.43.0


From a2aa0434fe5e4fd5c7851d45f6d0ed84494f013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:49 +0000
Subject: [PATCH 03/20] fix: estimate the wind from the forecast when all
 measurements are stale

---
 balloon_learning_environment/env/wind_gp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..500d0ce 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,6 +183,12 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
+        if not inputs.size:
+          # Every measurement is too old to use; fall back on the prior.
+          means = np.zeros((locations.shape[0], 2))
+          deviations = np.ones(locations.shape[0])
+          self._add_forecast_to_prediction(locations, means)
+          return means, deviations
       self.model.fit(inputs, targets)
 
       # Output should be a N x 2 set of predictions about local measurements,
-- 
2.43.0


From c619cdb9be63c1337c666cc888dcd916abe48368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:58 +0000
Subject: [PATCH 04/20] fix: restore the feature constructor with the simulator
 state

---
 balloon_learning_environment/env/balloon_arena.py  | 6 ++++--
 balloon_learning_environment/env/simulator_data.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/balloon_arena.py b/balloon_learning_environment/env/balloon_arena.py
index f15e68a..cdcd4b0 100644
--- a/balloon_learning_environment/env/balloon_arena.py
+++ b/balloon_learning_environment/env/balloon_arena.py
@@ -204,14 +204,16 @@ class BalloonArena(BalloonArenaInterface):
   def get_simulator_state(self) -> simulator_data.SimulatorState:
     return simulator_data.SimulatorState(self.get_balloon_state(),
                                          self._wind_field,
-                                         self._atmosphere)
+                                         self._atmosphere,
+                                         self.feature_constructor)
 
   def set_simulator_state(self,
                           new_state: simulator_data.SimulatorState) -> None:
-    # TODO(joshgreaves): Restore the state of the feature constructor.
     self.set_balloon_state(new_state.balloon_state)
     self._wind_field = new_state.wind_field
     self._atmosphere = new_state.atmosphere
+    if new_state.feature_constructor is not None:
+      self.feature_constructor = new_state.feature_constructor
 
   def get_balloon_state(self) -> balloon.BalloonState:
     return self._balloon.state
diff --git a/balloon_learning_environment/env/simulator_data.py b/balloon_learning_environment/env/simulator_data.py
index 174edf4..05bac63 100644
--- a/balloon_learning_environment/env/simulator_data.py
+++ b/balloon_learning_environment/env/simulator_data.py
@@ -16,6 +16,7 @@
 """Model classes for simulator state and simulator observations."""
 
 import dataclasses
+from typing import Any, Optional
 
 from balloon_learning_environment.env import wind_field
 from balloon_learning_environment.env.balloon import balloon
@@ -28,10 +29,13 @@ class SimulatorState(object):
 
   Since it specifies the full state of the simulator, it should be
   possible to use this for checkpointing and restoring the simulator.
+  The feature constructor is included because it accumulates measurements.
   """
   balloon_state: balloon.BalloonState
   wind_field: wind_field.WindField
   atmosphere: standard_atmosphere.Atmosphere
+  # A features.FeatureConstructor (not imported, to avoid a circular import).
+  feature_constructor: Optional[Any] = None
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 93e663e1e8ab37adcc95c184381e0439762cd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:30 +0000
Subject: [PATCH 05/20] fix: copy and pickle LatLng without rounding

---
 balloon_learning_environment/utils/spherical_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..0012c65 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -36,7 +36,7 @@ _EARTH_RADIUS = units.Distance(km=6371)
 # but it may be beneficial to enforce it is included at some later date.
 # These type hints are bad, but it's what copyreg wants 😬.
 def pickle_latlng(obj: Any) -> tuple:  # pylint: disable=g-bare-generic
-  return s2.LatLng.from_degrees, (obj.lat().degrees, obj.lng().degrees)
+  return s2.LatLng.from_radians, (obj.lat().radians, obj.lng().radians)
 
 copyreg.pickle(s2.LatLng, pickle_latlng)
 
-- 
2.43.0


From a6139222b56c60063b3b478291833ebfed658c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 06/20] fix: only take checkpoint files for checkpoints,
 whatever their number of digits

A file such as checkpoint_best.pkl made training restart from scratch, and
checkpoint_final.pkl made the clean-up fail. Checkpoints from iteration 100000
on were never cleaned up.
---
 .../agents/dopamine_utils.py                        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..090ded3 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,9 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  # Iterations are padded to five digits, but may need more of them.
+  return (parts[0] == 'checkpoint' and len(parts[1]) >= 5 and
+          parts[1].isdecimal())
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -88,8 +90,6 @@ def load_checkpoint(
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
   glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
-  def extract_episode(x):
-    return int(x[x.rfind('checkpoint_') + 11:-4])
 
   try:
     checkpoint_files = tf.io.gfile.glob(glob)
@@ -97,11 +97,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
     return -1
 
-  try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
-  except ValueError:
-    return -1
-  return latest_episode
+  return max((_get_checkpoint_iteration(x) for x in checkpoint_files
+              if _is_checkpoint_name(x)), default=-1)
 
 
 def clean_up_old_checkpoints(checkpoint_dir: str,
-- 
2.43.0


From 843a4d5e4d0cbc5025092eb6d9944c8cafa5df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:39 +0000
Subject: [PATCH 07/20] fix: resume from the newest checkpoint that is intact

Checkpoints are not written atomically. A process killed while saving one left
a file that could not be loaded, so that training could not be restarted; and a
checkpoint that was refused was reported as restored all the same.
---
 .../agents/dopamine_utils.py                  | 77 +++++++++++++++++--
 .../agents/dqn_agent.py                       | 23 +++---
 .../agents/quantile_agent.py                  | 23 +++---
 3 files changed, 90 insertions(+), 33 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 090ded3..8fabba1 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -15,10 +15,12 @@
 
 """Common utilities for Dopamine-based agents."""
 
+import contextlib
+import gzip
 import os.path as osp
 import pathlib
 import pickle
-from typing import Any, Dict, Callable
+from typing import Any, Dict, Callable, List
 
 from absl import logging
 import tensorflow as tf
@@ -74,31 +76,92 @@ def save_checkpoint(checkpoint_dir: str,
 def load_checkpoint(
     checkpoint_dir: str,
     iteration_number: int,
-    unbundle_fn: Callable[[str, int, Dict[Any, Any]], bool]) -> None:
-  """Load a checkpoint using the provided unbundling function."""
+    unbundle_fn: Callable[[str, int, Dict[Any, Any]], bool]) -> bool:
+  """Load a checkpoint, and return whether the unbundling function succeeded."""
   filename = _make_checkpoint_filename(checkpoint_dir, iteration_number)
   if not tf.io.gfile.exists(filename):
     logging.warning('Unable to restore bundle from %s', filename)
-    return
+    return False
 
   with tf.io.gfile.GFile(filename, 'rb') as fin:
     bundle = pickle.load(fin)
   if not unbundle_fn(checkpoint_dir, iteration_number, bundle):
     logging.warning('Call to parent `unbundle` failed.')
+    return False
+  return True
+
+
+@contextlib.contextmanager
+def unchanged_on_error(agent: Any):
+  """Puts a Dopamine agent back as it was if an exception is raised.
+
+  Loading replaces the attributes of the agent and those of its replay buffer
+  one after the other, so a damaged file would leave them half loaded.
+
+  Args:
+    agent: A Dopamine agent.
+
+  Yields:
+    Nothing.
+  """
+  replay = agent._replay  # pylint: disable=protected-access
+  saved = [(x, dict(x)) for x in (
+      agent.__dict__, replay.__dict__, replay._store)]  # pylint: disable=protected-access
+  try:
+    yield
+  except Exception:
+    for attributes, values in saved:
+      attributes.update(values)
+    raise
+
+
+def reload_latest_checkpoint(checkpoint_dir: str,
+                             load_fn: Callable[[str, int], bool]) -> int:
+  """Loads the newest checkpoint that is intact.
+
+  Checkpoints are not written atomically, so that the newest one is incomplete
+  if the process was interrupted while saving it.
+
+  Args:
+    checkpoint_dir: Directory where checkpoints are stored.
+    load_fn: Loads a checkpoint, and returns whether it was restored.
+
+  Returns:
+    The iteration of the checkpoint that was loaded, or -1 if there was none.
+  """
+  for iteration in reversed(_get_checkpoints(checkpoint_dir)):
+    try:
+      if load_fn(checkpoint_dir, iteration):
+        return iteration
+    except gzip.BadGzipFile:
+      pass
+    except (tf.errors.OpError, OSError):
+      # It could not be read, but it may well be intact.
+      raise
+    except Exception:  # pylint: disable=broad-except
+      pass  # Whatever unpickling a damaged file raises.
+    logging.warning('Checkpoint %d at %s is not intact',
+                    iteration, checkpoint_dir)
+  return -1
 
 
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
+  return max(_get_checkpoints(checkpoint_dir), default=-1)
+
+
+def _get_checkpoints(checkpoint_dir: str) -> List[int]:
+  """Finds the episode IDs of all checkpoints, in ascending order."""
   glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
 
   try:
     checkpoint_files = tf.io.gfile.glob(glob)
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-    return -1
+    return []
 
-  return max((_get_checkpoint_iteration(x) for x in checkpoint_files
-              if _is_checkpoint_name(x)), default=-1)
+  return sorted(_get_checkpoint_iteration(x) for x in checkpoint_files
+                if _is_checkpoint_name(x))
 
 
 def clean_up_old_checkpoints(checkpoint_dir: str,
diff --git a/balloon_learning_environment/agents/dqn_agent.py b/balloon_learning_environment/agents/dqn_agent.py
index 606b083..6778dec 100644
--- a/balloon_learning_environment/agents/dqn_agent.py
+++ b/balloon_learning_environment/agents/dqn_agent.py
@@ -122,21 +122,18 @@ class DQNAgent(agent.Agent, dqn_agent.JaxDQNAgent):
           checkpoint_dir, iteration_number,
           checkpoint_duration=self._checkpoint_duration)
 
-  def load_checkpoint(self, checkpoint_dir: str, iteration_number: int) -> None:
-    """Checkpoint agent parameters as a pickled dict."""
-    dopamine_utils.load_checkpoint(
-        checkpoint_dir, iteration_number,
-        functools.partial(dqn_agent.JaxDQNAgent.unbundle, self))
+  def load_checkpoint(self, checkpoint_dir: str, iteration_number: int) -> bool:
+    """Loads a checkpoint, and returns whether the agent was restored."""
+    with dopamine_utils.unchanged_on_error(self):
+      return dopamine_utils.load_checkpoint(
+          checkpoint_dir, iteration_number,
+          functools.partial(dqn_agent.JaxDQNAgent.unbundle, self))
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
-    latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
+    latest_episode = dopamine_utils.reload_latest_checkpoint(
+        checkpoint_dir, self.load_checkpoint)
     if latest_episode < 0:
       logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
+    else:
       logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    return latest_episode
diff --git a/balloon_learning_environment/agents/quantile_agent.py b/balloon_learning_environment/agents/quantile_agent.py
index 79e31a0..1df1820 100644
--- a/balloon_learning_environment/agents/quantile_agent.py
+++ b/balloon_learning_environment/agents/quantile_agent.py
@@ -180,24 +180,21 @@ class QuantileAgent(agent.Agent, quantile_agent.JaxQuantileAgent):
           checkpoint_dir, iteration_number,
           checkpoint_duration=self._checkpoint_duration)
 
-  def load_checkpoint(self, checkpoint_dir: str, iteration_number: int) -> None:
-    """Checkpoint agent parameters as a pickled dict."""
-    dopamine_utils.load_checkpoint(
-        checkpoint_dir, iteration_number,
-        functools.partial(quantile_agent.JaxQuantileAgent.unbundle, self))
+  def load_checkpoint(self, checkpoint_dir: str, iteration_number: int) -> bool:
+    """Loads a checkpoint, and returns whether the agent was restored."""
+    with dopamine_utils.unchanged_on_error(self):
+      return dopamine_utils.load_checkpoint(
+          checkpoint_dir, iteration_number,
+          functools.partial(quantile_agent.JaxQuantileAgent.unbundle, self))
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
-    latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
+    latest_episode = dopamine_utils.reload_latest_checkpoint(
+        checkpoint_dir, self.load_checkpoint)
     if latest_episode < 0:
       logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
+    else:
       logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    return latest_episode
 
   @staticmethod
   def load_perciatelli_weights() -> flax.core.FrozenDict:
-- 
2.43.0


From 3c1de2253c10844e51a7082036247040cde35cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 08/20] fix: combine only the shards of the model itself

The pattern model_*.json also matched the results of every other model
whose name starts the same way, for example dqn_large_0.json for dqn.
---
 balloon_learning_environment/eval/combine_eval_shards.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..2036225 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -45,7 +46,11 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
-    for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+    for path in glob.glob(os.path.join(glob.escape(FLAGS.path), '*.json')):
+      # Don't mix in models whose name starts with the name of this one.
+      if not re.fullmatch(re.escape(model) + r'_[0-9]+\.json',
+                          os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From d0148930410570c76804be71206756f8d316f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 09/20] fix: raise RuntimeError when perciatelli44 is found
 nowhere

GFile reports a missing file with tf.errors.NotFoundError, so that the
documented RuntimeError was never raised.
---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From aafe0e08032415b29348f6194e89ea1358391816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 10/20] fix: keep the console log when training resumes, and
 flush every episode

A resumed run truncated the log of all episodes before it, and a killed
one lost the episodes that were still in the write buffer.
---
 balloon_learning_environment/metrics/console_collector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/metrics/console_collector.py b/balloon_learning_environment/metrics/console_collector.py
index e991604..2dedf10 100644
--- a/balloon_learning_environment/metrics/console_collector.py
+++ b/balloon_learning_environment/metrics/console_collector.py
@@ -52,7 +52,9 @@ class ConsoleCollector(collector.Collector):
 
   def pre_training(self) -> None:
     if self._log_file is not None:
-      self._log_file_writer = tf.io.gfile.GFile(self._log_file, 'w')
+      # Keep the log of the episodes before this one if training resumes.
+      self._log_file_writer = tf.io.gfile.GFile(
+          self._log_file, 'a' if self.current_episode > 0 else 'w')
 
   def begin_episode(self) -> None:
     self._action_counts = np.zeros(self._num_actions)
@@ -87,6 +89,7 @@ class ConsoleCollector(collector.Collector):
 
     if self._log_file is not None:
       self._log_file_writer.write(episode_string)  # pytype: disable=attribute-error  # trace-all-classes
+      self._log_file_writer.flush()
 
     self.current_episode += 1
 
-- 
2.43.0


From 0aeaf9fa421934ebde20974383d7f739f7cd11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 11/20] fix: return no evaluation fields for an evaluation
 batch of size zero

dataset[-0:] is the whole dataset.
---
 .../generative/dataset_wind_field_reservoir.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..66af3b5 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,5 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    start = max(self.dataset.shape[0] - self.eval_batch_size, 0)
+    return self.dataset[start:, ...]
-- 
2.43.0


From 6d28ff90975bd310e5903e659b25f8385e143cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 12/20] fix: do not ask for an action after the last step of an
 episode

An episode cut off at the maximum length asked the agent for one more
action, which was never sent to the environment. Dopamine's agents store
the last reward with that call, and once more in end_episode with the
action that was never taken, so that the replay memory had one transition
too many, which never happened, for every such episode.
---
 balloon_learning_environment/train_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..9ec28c1 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -67,8 +67,10 @@ def _run_one_episode(env: balloon_env.BalloonEnv,
       final_episode_step = i + 1
       break
 
-    # Pass observation to agent, request new action.
-    a = agent.step(r, obs)
+    # Pass observation to agent, request new action. There is none to request
+    # if the episode is cut off here: end_episode passes on the last reward.
+    if i + 1 < max_episode_length:
+      a = agent.step(r, obs)
 
   # The environment has no timeout, so terminal really is a terminal state.
   agent.end_episode(r, terminal)
-- 
2.43.0


From 8f35acf1134e94a89e769f11c1f07e2ebfc63656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 13/20] fix: never pair an old checkpoint with the replay
 memory of a new one

Saving over an existing checkpoint bundled (writing the replay memory) before
the old checkpoint file was replaced, so a crash in between left the old
networks beside the new replay memory and resuming accepted the pair.
---
 balloon_learning_environment/agents/dopamine_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 8fabba1..1fd37b0 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -62,13 +62,18 @@ def save_checkpoint(checkpoint_dir: str,
     # If it already exists, ignore exception.
     pass
 
+  # Bundling saves the replay memory. Should that be interrupted, an old
+  # checkpoint file must not pass it off as its own.
+  filename = _make_checkpoint_filename(checkpoint_dir, iteration_number)
+  if tf.io.gfile.exists(filename):
+    tf.io.gfile.remove(filename)
+
   bundle = bundle_fn(checkpoint_dir, iteration_number)
   if bundle is None:
     logging.warning('Unable to checkpoint to %s at iteration %d.',
                     checkpoint_dir, iteration_number)
     return
 
-  filename = _make_checkpoint_filename(checkpoint_dir, iteration_number)
   with tf.io.gfile.GFile(filename, 'w') as fout:
     pickle.dump(bundle, fout)
 
-- 
2.43.0


From c93b33979f17b90f60be69fbacba25b9e63045ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 14/20] fix: give every Perciatelli44 session its own graph

All sessions shared the default graph, in which the nodes of every import
but the first are renamed: an agent built from other weights later in the
same process looked up, and flew with, the weights of the first one.
---
 balloon_learning_environment/agents/perciatelli44.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/agents/perciatelli44.py b/balloon_learning_environment/agents/perciatelli44.py
index a4654e0..123e5d9 100644
--- a/balloon_learning_environment/agents/perciatelli44.py
+++ b/balloon_learning_environment/agents/perciatelli44.py
@@ -26,12 +26,15 @@ import tensorflow as tf
 def load_perciatelli_session() -> tf.compat.v1.Session:
   serialized_perciatelli = models.load_perciatelli44()
 
-  sess = tf.compat.v1.Session()
   graph_def = tf.compat.v1.GraphDef()
   graph_def.ParseFromString(serialized_perciatelli)
 
-  tf.compat.v1.import_graph_def(graph_def)
-  return sess
+  # Every session has its own graph: in a shared one the nodes of all but the
+  # first import are renamed, and look-ups find the weights of the first.
+  graph = tf.Graph()
+  with graph.as_default():
+    tf.compat.v1.import_graph_def(graph_def, name='')
+  return tf.compat.v1.Session(graph=graph)
 
 
 class Perciatelli44(agent.Agent):
-- 
2.43.0


From 8b19104099c0873fd359ff8470047da029c60a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 15/20] fix: MatplotlibRenderer produces images with current
 matplotlib

FigureCanvasAgg.tostring_rgb no longer exists; read the canvas through
buffer_rgba, which all versions have, and return a copy as before.
---
 .../env/rendering/matplotlib_renderer.py                     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..abe8479 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,7 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      frame = np.array(self._fig.canvas.buffer_rgba())[..., :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From 82f6b74965f0995eca8a890abf9f8084d358bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 16/20] fix: refuse invalid coordinates in solar_calculator

The method is_valid was named but not called, so that the check never fired.
---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From 081d2f601b4ea43d6f1b97eb0e5f17cfef956737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 17/20] fix: sun position of times that are not written in UTC

The time of day was taken in UTC, but the calendar date in the time's own zone,
so that the same instant had two suns.
---
 balloon_learning_environment/env/balloon/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..7c65380 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,8 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  # The calendar date below has to be that of the same (UTC) day.
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0


From eb32bb6098ce32371a41f834d89963b8119b6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 18/20] fix: sun position where the sun stands in the zenith

Rounding could take the cosine of the zenith angle out of [-1, 1], which made
elevation and azimuth (and the power and heat derived from them) NaN.
---
 balloon_learning_environment/env/balloon/solar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 7c65380..02e9db9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -134,10 +134,11 @@ def solar_calculator(latlng: s2.LatLng,
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
 
-  zenith_angle = np.arccos(
+  # Rounding may take the cosine out of [-1, 1] with the sun overhead.
+  zenith_angle = np.arccos(np.clip(
       np.sin(latlng.lat().radians) * np.sin(declination_sun) +
       np.cos(latlng.lat().radians) * np.cos(declination_sun) *
-      np.cos(hour_angle))
+      np.cos(hour_angle), -1.0, 1.0))
 
   # Compute solar elevation. Correct for atmospheric refraction.
   el_uncorrected_deg = 90.0 - math.degrees(zenith_angle)
@@ -161,7 +162,8 @@ def solar_calculator(latlng: s2.LatLng,
   # Compute solar azimuth. Make sure cos_azimuth is in the range [-1, 1].
   cos_az = ((np.sin(latlng.lat().radians) * np.cos(zenith_angle) -
              np.sin(declination_sun)) /
-            (np.cos(latlng.lat().radians) * np.sin(zenith_angle)))
+            (np.cos(latlng.lat().radians) *
+             np.maximum(np.sin(zenith_angle), 1e-12)))
   az_unwrapped = np.arccos(np.clip(cos_az, -1.0, 1.0))
   if hour_angle > 0:
     az_deg = math.degrees(az_unwrapped) + 180.0
-- 
2.43.0


From 291faab7dd5263d5c58a0d44026bd1c822d9d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:31 +0000
Subject: [PATCH 19/20] fix: undo_squash_to_unit_interval refuses values
 outside [0, 1)

The check '0 > x >= 1' is never true, so no value was ever refused: values
above one came back negative, and one itself divided by zero.
---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From 4726044e98414b9200b64bf800953bdd41aef403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:31 +0000
Subject: [PATCH 20/20] fix: NamedPerciatelliFeatures.wind_at refuses levels
 outside the column

The check '0 > level >= n' is never true: a negative level silently returned
the wind of another level, or failed while building the result.
---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0

