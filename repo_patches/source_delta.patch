From a8abf8517e94559469051b1e6bf0f0f0d727d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 01/28] fix: clip inverse heading deltas of the delta dynamics
 to max_dyaw

---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From 923eecf40da02602ae2e5ef142f1ed24c6c59685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 02/28] fix: reject a Discretizer whose bounds and bins differ
 in shape

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..052142a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -47,7 +47,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From e9b4225663a483c9fa68e2307616ca063bb442d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 03/28] fix: search the best discrete action for every object,
 not only the SDC

---
 waymax/dynamics/discretizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 052142a..c00f202 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,9 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  # Every object is searched independently, so each of them is driven by the
+  # candidate action rather than replaying the log.
+  is_controlled = jnp.ones_like(metadata.is_sdc, dtype=bool)
   valids = jax.lax.dynamic_slice_in_dim(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From 1bd4f7f587730b9eafc45cc994069f3f74403999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 04/28] fix: make Discretizer.discretize usable under jit

---
 waymax/dynamics/discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index c00f202..01d2d1d 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -53,6 +53,8 @@ class Discretizer:
     self._bins = bins
     self._shift = min_value
     self._scale = bins / (max_value - min_value)
+    # Static grid shape, so that indices can also be computed under jit.
+    self._grid_shape = tuple(int(num_bins) + 1 for num_bins in bins)
     self._max_discrete_idx = jnp.prod(self._bins + 1) - 1
 
   def discretize(self, values: jax.Array) -> jax.Array:
@@ -74,7 +76,7 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        self._grid_shape,
         mode='clip',
     )
     return indices_1d
-- 
2.43.0


From a464f8f62461abf6ec43a439c9a4254451cf575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 05/28] fix: flag every observer's own row as ego in
 observation_from_state

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From e5e4bf2109cefdd1b2db759b7054bb4a1e857a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 06/28] fix: keep roadgraph ids exact in
 filter_topk_roadgraph_points

---
 waymax/datatypes/roadgraph.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..64ed2b3 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -201,33 +201,9 @@ def filter_topk_roadgraph_points(
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
 
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    # Each field is gathered in its own dtype: ids do not fit in a float32.
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From e3304d02b06b1fdf1d88d73639fc50362a93211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 07/28] fix: slice the observer axis in Observation.for_obj

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 2a4f9b85f7be1f413804f73f4e1c5e261d2bad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 08/28] fix: never report offroad from a map without valid road
 edges

---
 waymax/metrics/roadgraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..b69feea 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -228,6 +228,9 @@ def compute_signed_distance_to_nearest_road_edge_point(
       )
   )
   # Shape: (..., num_query_points).
-  return (
+  signed_distances = (
       jnp.linalg.norm(nearest_xys - query_points[:, :2], axis=-1) * offroad_sign
   )
+  # Without any valid road edge there is no point to measure from.
+  has_road_edge = jnp.any(roadgraph_points.valid & is_road_edge, axis=-1)
+  return jnp.where(has_road_edge, signed_distances, -float('inf'))
-- 
2.43.0


From abc7c780ebb54d89cfd89b12236b5ab638730dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 09/28] fix: reward only the objects the environment controls

---
 waymax/env/base_environment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..74f1c88 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -156,9 +156,7 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
       An array of rewards of shape (..., num_objects).
     """
     if self.config.compute_reward:
-      agent_mask = datatypes.get_control_mask(
-          state.object_metadata, self.config.controlled_object
-      )
+      agent_mask = _get_control_mask(state, self.config)
       return self._reward_function.compute(state, action, agent_mask)
     else:
       reward_spec = _multi_agent_reward_spec(self.config)
-- 
2.43.0


From 421a8f72c155d078aa9ffc71e74292ec5d9e0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 10/28] fix: return a float reward when no reward metric is
 configured

---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..633924f 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       metric = metric_all_agents * agent_mask
-- 
2.43.0


From 67e17bc63694d2160a82db380c20301f7a1546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/28] fix: combine SDC-only metrics into rewards of batched
 states

---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 633924f..5759fb1 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Metrics of the SDC alone have no object dimension.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From fc6635925753688af14346709f4bd08b3af0523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 12/28] fix: tile action validity per object in
 PlanningAgentDynamics.forward

---
 waymax/env/planning_agent_environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From 570e9457acab639efa90752de814907ccda59423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 13/28] fix: pass the environment's Action, not the raw array,
 to the reward in DMEnvWrapper

---
 waymax/env/wrappers/dm_env_wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..32f0c23 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -114,10 +114,6 @@ class DMEnvWrapper(dm_env.Environment):
     if self._done:
       raise errors.EpisodeAlreadyFinishedError()
 
-    # Calculate the reward on the simulation step before updating the state with
-    # the given action.
-    reward = self._jitted_stateless_env_reward(self._cur_state, action)
-
     action = jnp.asarray(action)
     # Reshape the action to what the underlying environment wants.
     action = jnp.reshape(
@@ -129,6 +125,9 @@ class DMEnvWrapper(dm_env.Environment):
         data=action, valid=jnp.ones_like(action[..., 0:1], dtype=jnp.bool_)
     )
     action.validate()
+    # Calculate the reward on the simulation step before updating the state with
+    # the given action.
+    reward = self._jitted_stateless_env_reward(self._cur_state, action)
     self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
 
     termination = self._stateless_env.termination(self._cur_state)
-- 
2.43.0


From 04898e555f9eac5675f21403be7424fd225276a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 14/28] fix: do not let DMEnvWrapper step a scenario its reset
 rejected

---
 waymax/env/wrappers/dm_env_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 32f0c23..c9d9cb8 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -87,8 +87,9 @@ class DMEnvWrapper(dm_env.Environment):
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
-    if self._cur_state.is_done:
+    # A state that is done cannot be simulated: leave the wrapper uninitialized.
+    self._initialized = not self._cur_state.is_done
+    if not self._initialized:
       raise errors.SimulationNotInitializedError()
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
-- 
2.43.0


From 6ed4a1907594c3c93220bcdc0fe87af9b7a9db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 15/28] fix: give the configured sim agents of
 make_sdc_dm_environment their params

---
 waymax/env/wrappers/dm_env_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index c9d9cb8..c0c63ff 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,6 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=[{} for _ in sim_agent_actors],
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From dfaccb5f9864184da9a0b445cd8b0ae9ecd46f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 16/28] fix: read negative validity flags of WOMD records as
 invalid

---
 waymax/dataloader/womd_factories.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..f1a9331 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,9 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Missing steps are flagged by 0 or -1, which is what
+  # `simulator_state_to_womd_dict` writes for the future.
+  valid = jnp.asarray(example[f'{prefix}/valid']) > 0
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +284,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Missing lights are flagged by 0 or -1.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid']) > 0
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From 32b6dfe12bf3d52f145bfeaf8afb99442bd2c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 17/28] fix: keep every step of state/which_time when
 truncating objects

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..4d7423e 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -71,8 +71,11 @@ def preprocess_womd_example(
 
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
+    # `state/which_time` has a time axis only, no object axis.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From a2565583f6dd16ba69579225593c3417d4484d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 18/28] fix: accept @ and % in the directory of a sharded path

---
 waymax/dataloader/dataloader_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..9b558c8 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -53,11 +53,11 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
     An iterator through the complete set of filenames that the path refers to,
     with each filename having the format `filename-XXXXX-of-YYYYY`
   """
-  base_name, num_shards = path.split('@')
+  base_name, num_shards = path.rsplit('@', 1)
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
-  format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-  return [format_str % (i, num_shards) for i in range(num_shards)]
+  format_str = '-%0' + str(shard_width) + 'd-of-%05d'
+  return [base_name + format_str % (i, num_shards) for i in range(num_shards)]
 
 
 def tf_examples_dataset(
-- 
2.43.0


From c865a679bbb3b28a163d8c22974e1c661cfa8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 19/28] fix: read every loading shard of an endlessly repeated
 dataset

---
 waymax/dataloader/dataloader_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 9b558c8..1651900 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -161,8 +161,13 @@ def tf_examples_dataset(
       _make_dataset, num_shards=num_shards, local_files=files
   )
   indices = tf.data.Dataset.range(num_shards)
+  # Every shard must be in the cycle: a repeated shard never ends, so a shard
+  # left out would never be read.
   dataset = indices.interleave(
-      make_dataset_fn, num_parallel_calls=AUTOTUNE, deterministic=deterministic
+      make_dataset_fn,
+      cycle_length=num_shards,
+      num_parallel_calls=AUTOTUNE,
+      deterministic=deterministic,
   )
 
   if tf_data_service_address is not None:
-- 
2.43.0


From f2f8519f7e4f40343bf439c968325510d4b46388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 20/28] fix: broadcast masked_mean back along the reduced axis

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..d9114f5 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -278,9 +278,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From 7e8adada184f5a01b0a02d8ca15a21c24809be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 21/28] fix: compare PyTrees of different structures as unequal

---
 waymax/datatypes/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index d9114f5..e3da7b4 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -206,6 +206,10 @@ def compare_all_leaf_nodes(  # pytype: disable=annotation-type-mismatch  # jnp-t
   """
   if not isinstance(second, type(first)):
     return False
+  if jax.tree_util.tree_structure(first) != jax.tree_util.tree_structure(
+      second
+  ):
+    return False
   flags = jax.tree_util.tree_map(compare_func, first, second)
   return jax.tree_util.tree_all(flags)
 
-- 
2.43.0


From 25a209e50f0e7bb47c84684cf33b1f62d809899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 22/28] fix: mask trailing value dimensions in
 MaskedArray.masked_value

---
 waymax/datatypes/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/array.py b/waymax/datatypes/array.py
index 47490ee..5a9f240 100644
--- a/waymax/datatypes/array.py
+++ b/waymax/datatypes/array.py
@@ -73,4 +73,7 @@ class MaskedArray:
       `value` where invalid elements are replaced with `fill_value`.
     """
     fill_array = jnp.full_like(self.value, fill_value, dtype=self.value.dtype)
-    return jnp.where(self.valid, self.value, fill_array)
+    valid = jnp.expand_dims(
+        self.valid, axis=range(self.valid.ndim, self.value.ndim)
+    )
+    return jnp.where(valid, self.value, fill_array)
-- 
2.43.0


From ffc2f8ec17a62d8ecfb32e42b8680a60da84e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 23/28] fix: step and score states whose timestep has the
 documented batch shape

---
 waymax/datatypes/operations.py           | 5 +++++
 waymax/dynamics/bicycle_model.py         | 4 ++--
 waymax/env/planning_agent_environment.py | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index e3da7b4..ecf7966 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,11 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  elif hasattr(inputs_start_idx, 'shape'):
+    # One start index may be shared by all batch elements.
+    updates_start_idx = jnp.broadcast_to(
+        updates_start_idx, inputs_start_idx.shape
+    )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
diff --git a/waymax/dynamics/bicycle_model.py b/waymax/dynamics/bicycle_model.py
index 347c143..000a172 100644
--- a/waymax/dynamics/bicycle_model.py
+++ b/waymax/dynamics/bicycle_model.py
@@ -74,12 +74,12 @@ def compute_inverse(
   xy_yaw_vel = jnp.stack(
       [traj.x, traj.y, traj.yaw, traj.vel_x, traj.vel_y], axis=-1
   )
-  xy_yaw_vel_slice = jax.lax.dynamic_slice_in_dim(
+  xy_yaw_vel_slice = datatypes.dynamic_slice(
       xy_yaw_vel, start_index=timestep, slice_size=2, axis=-2
   )
   # Each has shape (..., num_timesteps = 2, 1).
   _, _, yaw, vel_x, vel_y = jnp.split(xy_yaw_vel_slice, 5, axis=-1)
-  valids = jax.lax.dynamic_slice_in_dim(
+  valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 653ba14..dd7e5d0 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -310,7 +310,9 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
       # necessarily kinematically feasible, so we choose to ignore the first
       # state's sdc_kim value and set it to 0 (kinematically feasible) because
       # the action is not chosen by the actor and is thus not clipped.
-      kim_metric_valid = state.timestep > self.config.init_steps - 1
+      kim_metric_valid = jnp.expand_dims(
+          state.timestep > self.config.init_steps - 1, axis=-1
+      )
       kim_metric = metric_dict['kinematic_infeasibility']
       kim_metric = kim_metric.replace(
           value=kim_metric.value * kim_metric_valid,
-- 
2.43.0


From ab79afe9de709fe76d776a14cd6a8fe2bde8a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 24/28] fix: centre frames on center_agent_idx instead of
 failing to index it

---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..8fbf5ea 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx, np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx, np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx, np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From 0a74b83447198c8c4e8e64293293049ce4e48756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 25/28] fix: save frames to a file name without a directory

---
 waymax/visualization/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/utils.py b/waymax/visualization/utils.py
index c3c3636..6b8a68a 100644
--- a/waymax/visualization/utils.py
+++ b/waymax/visualization/utils.py
@@ -95,7 +95,8 @@ def img_from_fig(fig: matplotlib.figure.Figure) -> np.ndarray:
 def save_img_as_png(img: np.ndarray, filename: str = '/tmp/img.png'):
   """Saves np image to disk."""
   outdir = os.path.dirname(filename)
-  os.makedirs(outdir, exist_ok=True)
+  if outdir:
+    os.makedirs(outdir, exist_ok=True)
   Image.fromarray(img).save(filename)
 
 
-- 
2.43.0


From 23cec864ad07e31e87659111781fdaab8c320eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 26/28] fix: let plot_trajectory draw a trajectory without a
 highlighted step

---
 waymax/visualization/viz.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index 8fbf5ea..a1216cf 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -159,6 +159,22 @@ def plot_trajectory(
           f'{indices[i]}',
           zorder=10,
       )
+  if time_idx is None:
+    # No step to highlight: shows the positions only.
+    valid = np.asarray(traj.valid)
+    is_controlled = np.asarray(is_controlled)[:, np.newaxis]
+    for name, mask in (
+        ('controlled', is_controlled & valid),
+        ('context', ~is_controlled & valid),
+    ):
+      utils.plot_numpy_bounding_boxes(
+          ax=ax,
+          bboxes=traj_5dof[mask],
+          color=color.COLOR_DICT[name],
+          as_center_pts=True,
+          label=name if add_label else None,
+      )
+    return
   _plot_bounding_boxes(
       ax=ax,
       traj_5dof=traj_5dof,
-- 
2.43.0


From c8b5ee70475f320e48a2d7a3e54f3c1a1e1a9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 27/28] fix: observe steps before the start of the episode as
 invalid

With more observed steps than elapsed ones the slice started at a negative
index, which wraps around: the observation held the end of the log instead of
the current timestep.
---
 waymax/datatypes/observation.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 3981400..359fda9 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -474,8 +474,23 @@ def global_observation_from_state(
   """
 
   def slice_by_time(x: operations.PyTree) -> operations.PyTree:
+    # Steps before the start of the episode are observed as invalid.
+    padded = jax.tree_util.tree_map(
+        lambda y: jnp.concatenate(
+            [
+                jnp.repeat(
+                    operations.make_invalid_data(y[..., :1]),
+                    obs_num_steps - 1,
+                    axis=-1,
+                ),
+                y,
+            ],
+            axis=-1,
+        ),
+        x,
+    )
     return operations.dynamic_slice(
-        x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1
+        padded, state.timestep, obs_num_steps, axis=-1
     )
 
   # Shape: (..., num_obj, num_timesteps) -> (..., num_obj, num_timesteps=obs_T).
-- 
2.43.0


From 3afd572113c91a536bc5d176f910419b3cebc84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 28/28] fix: no transition leads to the first timestep in the
 kinematics metric

At timestep 0 the metric judged the last transition of the trajectory.
---
 waymax/metrics/comfort.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waymax/metrics/comfort.py b/waymax/metrics/comfort.py
index 3f44771..67d667b 100644
--- a/waymax/metrics/comfort.py
+++ b/waymax/metrics/comfort.py
@@ -106,7 +106,10 @@ class KinematicsInfeasibilityMetric(abstract_metric.AbstractMetric):
         jnp.abs(accel) > self._max_acc + _KIM_EPSILON,
         jnp.abs(steering) > self._max_steering + _KIM_EPSILON,
     )
-    kim_infeasibility = 1.0 * kim_infeasibility_bool
+    # No transition leads to the first timestep.
+    has_previous = (jnp.asarray(timestep) > 0)[..., jnp.newaxis]
+    valid = actions.valid[..., 0] & has_previous
+    kim_infeasibility = 1.0 * (kim_infeasibility_bool & valid)
     return abstract_metric.MetricResult.create_and_validate(
-        kim_infeasibility, actions.valid[..., 0]
+        kim_infeasibility, valid
     )
-- 
2.43.0

