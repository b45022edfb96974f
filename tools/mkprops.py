"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json
import os

W = 'waymax/'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=[W + f for f in files],
                   state=[dict(name=a, meaning=b, where=W + c) for a, b, c in state],
                   mechanism=[dict(name=a, where=W + b) for a, b in mech],
                   observe_at=list(observe), hook_needed=None)))


p('C01', 'An environment step writes exactly one new time index and nothing else',
  'Stepping the environment advances the timestep by exactly one and changes the simulated trajectory only at the new current time index; every earlier and later index keeps its value bit for bit. The logged trajectory, object metadata, roadgraph, traffic lights and SDC paths are never changed by stepping, and the input state object is not mutated. At the new index, box dimensions and elevation are carried over from the current simulated state and timestamps come from the log.',
  ['inputs', 'histories'],
  'all simulator states (any validity pattern, any timestep from the first to the last-but-one), any actions (valid or not, in or out of bounds), any dynamics model, any length of history, jitted or eager, batched or not',
  'Existing step tests run one recorded WOMD scene from its first timestep and compare a few fields; the WOMD fixture is not even present in a checkout, and no test looks at indices other than the new one.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'dynamics/abstract_dynamics.py', 'datatypes/operations.py'],
  [('BaseEnvironment.step', 'env/base_environment.py'), ('apply_trajectory_update_to_state', 'dynamics/abstract_dynamics.py'), ('update_by_slice_in_dim', 'datatypes/operations.py')],
  ['SimulatorState returned by step()'],
  [('sim_trajectory', 'rolled out history, one column per timestep', 'datatypes/simulator_state.py'), ('timestep', 'current index', 'datatypes/simulator_state.py')])

p('C02', 'Controlled objects follow the dynamics; uncontrolled objects replay the log',
  'After a step, each existing controlled object with a valid action is at the pose and velocity its dynamics model produces from its current simulated state and that action, and each object that is not controlled has exactly the logged pose and velocity of the new time index. Which objects are controlled is determined by the configured object type: the SDC, the modeled objects, or the valid objects (those valid at the end of the warm-up, or at any time if new objects may appear). The outcome for one object never depends on the actions or states of other objects.',
  ['inputs', 'histories', 'configurations'],
  'all states, validity patterns, per-object actions, controlled-object configurations and dynamics models, including permutations of the objects',
  'The tests compare hand-picked objects of one scene under one action; independence between objects and every mask combination are universally quantified.',
  ['dynamics/abstract_dynamics.py', 'env/base_environment.py', 'datatypes/operations.py'],
  [('DynamicsModel.forward', 'dynamics/abstract_dynamics.py'), ('_get_control_mask', 'env/base_environment.py'), ('get_control_mask', 'datatypes/operations.py')],
  ['step() result', 'forward() result'])

p('C03', 'Objects appear and disappear by the documented validity rules only',
  'A controlled object that is valid stays valid, and any other object is valid at the new index exactly when it is valid now and valid in the log at that index; an object that has become invalid therefore never comes back. If new objects are allowed to be injected, every object that is not both controlled and currently valid takes the logged validity at the new index instead.',
  ['inputs', 'histories', 'configurations'],
  'all validity histories (appearing, disappearing, gaps, never valid), control masks and both settings of object injection',
  'Validity patterns are combinatorial; the tests use objects that are valid throughout or a single recorded pattern.',
  ['dynamics/abstract_dynamics.py', 'env/base_environment.py', 'config.py'],
  [('apply_trajectory_update_to_state validity rule', 'dynamics/abstract_dynamics.py'), ('allow_new_objects_after_warmup', 'config.py')],
  ['valid mask of the simulated trajectory after each step'])

p('C04', 'Reset reproduces the logged warm-up exactly and nothing of the future',
  'Resetting an environment yields a state whose timestep is one less than the configured number of warm-up steps, whose simulated trajectory equals the log at every warm-up index, and which holds only the invalid placeholder at every later index. Log, metadata, map and lights are unchanged, resetting an already advanced state gives the same result as resetting the original one, and a state whose object count differs from the configuration is rejected.',
  ['inputs', 'histories', 'configurations'],
  'all states, timesteps, warm-up lengths, batch shapes and prior histories',
  'Tests check the default warm-up length on a recorded scene; leakage of the future and repeated reset need arbitrary histories.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/operations.py'],
  [('BaseEnvironment.reset', 'env/base_environment.py'), ('PlanningAgentEnvironment.reset', 'env/planning_agent_environment.py'), ('fill_invalid_trajectory', 'datatypes/operations.py')],
  ['reset() result'])

p('C05', 'Every dynamics model integrates its documented motion equations',
  'The forward update of each dynamics model (bicycle, global delta, local delta, full state) gives, for every object, the position, heading and velocity of its documented motion equations over one timestep of the configured length, starting from the current simulated state, with the bicycle heading wrapped to [-pi, pi]. The update is valid exactly when the action and the object are valid (the full-state model only looks at the action), and applying the same action to any object count, batch shape or timestep gives the same result.',
  ['inputs'],
  'all finite poses, headings (including near the wrap point), velocities and actions, for any object count, timestep and batch shape',
  'Dynamics tests check single hand-computed steps; a sign, wrap or frame error that needs a particular quadrant or speed passes them.',
  ['dynamics/bicycle_model.py', 'dynamics/delta.py', 'dynamics/state_dynamics.py', 'dynamics/abstract_dynamics.py'],
  [('InvertibleBicycleModel.compute_update', 'dynamics/bicycle_model.py'), ('DeltaGlobal/DeltaLocal.compute_update', 'dynamics/delta.py'), ('StateDynamics.compute_update', 'dynamics/state_dynamics.py')],
  ['compute_update() / forward() / update_state_with_dynamics_trajectory()'])

p('C06', 'Inverse dynamics recover the action that reproduces a trajectory',
  'For each invertible dynamics model, the inverse of a transition produced by the forward model from a valid in-bounds action gives back that action, and executing the inverse of a logged transition reproduces the next logged pose when it is reachable within bounds (for the delta and state models, driving every object with expert actions reproduces the whole log). The inverse action is valid exactly when the object is valid at both timesteps (for the full-state model: at the later one), zero where invalid for the bicycle and delta models, and always within the bounds of the model.',
  ['inputs', 'histories'],
  'all trajectories, timesteps, validity patterns and bounds; whole-episode expert rollouts',
  'Round-trip laws quantify over actions and states; the tests invert one transition per model.',
  ['dynamics/bicycle_model.py', 'dynamics/delta.py', 'dynamics/state_dynamics.py', 'dynamics/abstract_dynamics.py', 'agents/expert.py'],
  [('inverse / compute_inverse', 'dynamics/abstract_dynamics.py'), ('compute_inverse of the bicycle', 'dynamics/bicycle_model.py')],
  ['inverse() result; rollouts with expert actions'])

p('C07', 'Actions are clipped to the declared bounds; specs describe accepted actions',
  'Each dynamics model declares an action spec whose bounds are those it was configured with; the bicycle model executes an action outside them exactly like its value clipped to the nearest bound, and no inverse ever returns an action outside them (a heading delta being wrapped before it is clipped). With action normalization enabled for the bicycle model, an action in [-1, 1] means that fraction of the configured maximum in both directions of conversion. Environments report action specs consistent with their dynamics model and object count.',
  ['inputs', 'configurations'],
  'all bounds, actions (including far out of range), both normalization settings',
  'Tests use the default bounds and in-range actions for most models.',
  ['dynamics/bicycle_model.py', 'dynamics/delta.py', 'dynamics/state_dynamics.py', 'env/base_environment.py', 'env/planning_agent_environment.py'],
  [('_clip_values', 'dynamics/delta.py'), ('clip in compute_update / compute_inverse', 'dynamics/bicycle_model.py'), ('action_spec', 'dynamics/abstract_dynamics.py')],
  ['action_spec(), compute_update(), inverse()'])

p('C08', 'Discretization is a faithful grid: round trips, nearest bin, complete coverage',
  'A discretized action space enumerates every combination of per-dimension grid values exactly once, with both bounds on the grid; discretizing a grid value and converting back is the identity in both directions, and any continuous value maps to the nearest grid value after clipping to the bounds. Stepping a discrete-action dynamics wrapper with an index is the same as stepping the wrapped model with the corresponding continuous action, and its inverse returns an index in the declared range (the grid action nearest to the continuous inverse, or with search enabled, for every object, one whose resulting box is closest to the logged one).',
  ['inputs', 'configurations'],
  'all bounds, bin counts per dimension, indices, continuous values, batch shapes',
  'The tests enumerate a single tiny grid; wrong strides only show with differing bin counts per dimension and particular indices.',
  ['dynamics/discretizer.py'],
  [('Discretizer', 'dynamics/discretizer.py'), ('DiscreteActionSpaceWrapper', 'dynamics/discretizer.py')],
  ['Discretizer.discretize / make_continuous; wrapper compute_update / inverse / action_spec'])

p('C09', 'Overlap is exactly the intersection of oriented boxes of valid objects',
  'Two boxes are reported overlapping exactly when their oriented rectangles intersect with positive area; the answer is symmetric, invariant under rotation, translation and reordering, and an object never overlaps itself. The overlap metric reports, for each object, whether it overlaps any other valid object at the current simulated time, and is valid exactly when that object is valid.',
  ['inputs'],
  'all box centres, sizes, headings and validity masks, any number of objects and leading batch dimensions',
  'Separating-axis bugs appear only for particular relative orientations; the tests use a few boxes.',
  ['utils/geometry.py', 'metrics/overlap.py'],
  [('has_overlap / compute_pairwise_overlaps', 'utils/geometry.py'), ('OverlapMetric', 'metrics/overlap.py')],
  ['has_overlap, compute_pairwise_overlaps, OverlapMetric.compute'])

p('C10', 'Coordinate transforms are rigid motions consistent with each other',
  'Pose matrices, rotations, point/direction/heading transforms and box corners agree with the planar rigid motion they stand for: transforming into a pose maps the origin to zero and its heading to zero, distances and angles are preserved, the inverse pose undoes the transform, and directions ignore translation. Wrapping a heading returns the equivalent angle in [-pi, pi] and corners lie at half-length and half-width from the centre along the heading.',
  ['inputs'],
  'all positions, headings (including multiples of pi and large angles), sizes, batch shapes',
  'Geometry tests use axis-aligned or single examples.',
  ['utils/geometry.py', 'datatypes/object_state.py', 'datatypes/observation.py'],
  [('transform_points / rotation_matrix_2d / wrap_yaws / corners_from_bboxes', 'utils/geometry.py'), ('ObjectPose2D.from_center_and_yaw / transform_trajectory', 'datatypes/observation.py')],
  ['geometry functions; ObjectPose2D; transform_* functions'])

p('C11', 'Observations are the true recent state, seen from the requested frame',
  "An observation holds the simulated trajectories of all objects over the most recent requested timesteps ending at the current one, and the map points and lights around each observer at that moment, expressed exactly in the requested frame (global, SDC or per-object) with validity and all frame-independent fields preserved. The observing object's own row is flagged as ego for every observer, observations never contain data after the current timestep, and transforming back with the inverse pose gives the global values.",
  ['inputs', 'configurations'],
  'all states, timesteps, history lengths, object counts, coordinate frames, validity patterns and batch shapes',
  'The observation tests depend on a recorded scene (not shipped) and sample a single frame and timestep.',
  ['datatypes/observation.py', 'env/base_environment.py', 'env/planning_agent_environment.py'],
  [('observation_from_state / sdc_observation_from_state', 'datatypes/observation.py'), ('transform_observation', 'datatypes/observation.py')],
  ['observation_from_state, sdc_observation_from_state, env.observe'])

p('C12', 'Roadgraph selection returns exactly the nearest map points, unaltered',
  'Selecting the k nearest roadgraph points around a reference position returns k entries: the closest valid points with all of their fields (coordinates, direction, type, id) unaltered, padded by invalid points when there are fewer, and never a valid point that is farther while a nearer valid one is left out. If the map has exactly k points it is returned as it is, and asking for more points than there are is rejected.',
  ['inputs', 'configurations'],
  'all maps, validity masks, ties, ids over the full integer range, references, k and batch shapes',
  'The test samples a handful of points with tiny ids.',
  ['datatypes/roadgraph.py'],
  [('filter_topk_roadgraph_points', 'datatypes/roadgraph.py')],
  ['filter_topk_roadgraph_points()'])

p('C13', 'Offroad is decided by the nearest road edge, on the documented side',
  'A vehicle is reported offroad exactly when any corner of its box lies on the off-road side of the nearest valid road-edge point (elevation differences weighted double so that other levels of the road do not interfere), and the signed distance has the magnitude of the distance to that point and is positive off the road. Points that are not road edges or are invalid never influence it, nothing is off road on a map without valid road edges, and rotating or translating the whole scene does not change it.',
  ['inputs'],
  'all maps (types, validity, polylines, levels, point order), vehicle poses and sizes',
  'Tests use two or three straight edges and a few boxes.',
  ['metrics/roadgraph.py', 'datatypes/roadgraph.py'],
  [('is_offroad / compute_signed_distance_to_nearest_road_edge_point', 'metrics/roadgraph.py'), ('is_road_edge', 'datatypes/roadgraph.py')],
  ['OffroadMetric.compute, is_offroad, compute_signed_distance_to_nearest_road_edge_point'])

p('C14', 'Wrong-way, off-route and progression metrics follow the map and route geometry',
  'Wrong-way reports the planar distance from the SDC to the closest valid path point when that is beyond the 3.5 m threshold and zero otherwise; off-route reports the distance to the closest on-route path when it is more than 5 m away or more than 2 m farther than the closest off-route path, and zero otherwise; progression is the arc length travelled from the logged start relative to the logged end, measured along the on-route path closest to the SDC (1 when the logged start and end project to the same arc length). Invalid path points never influence the results, and each metric is marked valid only when it can be computed.',
  ['inputs'],
  'all path sets (validity, on-route flags, arc lengths), SDC positions, timesteps',
  'Tests hand-build one or two paths; nearest-path selection, ties and invalid tails are not sampled.',
  ['metrics/route.py', 'metrics/roadgraph.py', 'datatypes/route.py'],
  [('ProgressionMetric / OffRouteMetric', 'metrics/route.py'), ('WrongWayMetric', 'metrics/roadgraph.py')],
  ['Metric.compute results'])

p('C15', 'Log divergence and kinematic infeasibility measure the simulated motion',
  'Log divergence is the planar distance between an object simulated and logged position at the current time, valid exactly when both are valid. Kinematic infeasibility is 1 exactly when the acceleration or steering needed for the last simulated transition exceeds the vehicle limits, 0 otherwise, and valid only when the object was valid at both ends of it.',
  ['inputs'],
  'all trajectories, timesteps, validity patterns',
  'Tests compute the metrics on a few constructed motions.',
  ['metrics/imitation.py', 'metrics/comfort.py'],
  [('LogDivergenceMetric', 'metrics/imitation.py'), ('KinematicsInfeasibilityMetric', 'metrics/comfort.py')],
  ['Metric.compute results'])

p('C16', 'Reward is the weighted sum of valid metric values, for controlled agents only',
  'The linear-combination reward of each agent is the sum over configured metrics of weight times metric value, with invalid metric values counting as zero, and is zero for agents that are not controlled. Environments return this reward for the state before the action, return zeros when rewards are disabled, and unknown metric names are rejected at construction.',
  ['inputs', 'configurations'],
  'all states, weight dictionaries, agent masks, metric validity patterns',
  'Tests use one or two metrics on one state.',
  ['rewards/linear_combination_reward.py', 'env/base_environment.py', 'env/planning_agent_environment.py'],
  [('LinearCombinationReward.compute', 'rewards/linear_combination_reward.py'), ('BaseEnvironment.reward', 'env/base_environment.py')],
  ['env.reward, LinearCombinationReward.compute'])

p('C17', 'Only the requested metrics are computed, and configurations are validated',
  'Running metrics returns exactly the configured metrics, each keyed by its name and equal to computing that metric alone; custom metrics can be registered once, are found by name afterwards, and unknown or duplicate names are rejected. Metrics that were not requested are never evaluated. Inconsistent configurations (observation history longer than the warm-up, route metrics without route data in the dataset) are rejected when constructed, and consistent ones are accepted.',
  ['inputs', 'configurations', 'histories'],
  'all subsets of metrics, registration sequences and configuration values',
  'Tests check a few fixed configurations.',
  ['metrics/metric_factory.py', 'config.py'],
  [('run_metrics / register_metric', 'metrics/metric_factory.py'), ('__post_init__ validation', 'config.py')],
  ['run_metrics, config constructors'])

p('C18', 'The planning-agent environment is the multi-agent environment seen from the SDC',
  'Stepping the single-agent environment moves the SDC by its dynamics model, moves each sim-agent-controlled object by its actor, and replays the log for everyone else; later configured agents take precedence over earlier ones, and objects that overlapped another at the start are not taken over. Its observation, reward and metrics are exactly the SDC entries of the multi-agent quantities.',
  ['inputs', 'histories', 'configurations'],
  'all scenes, sim-agent sets and orders, SDC slots, SDC actions and episode lengths',
  'Tests run one recorded scene (not shipped) with one or two agents.',
  ['env/planning_agent_environment.py', 'env/base_environment.py'],
  [('PlanningAgentEnvironment.step / metrics / reward', 'env/planning_agent_environment.py'), ('PlanningAgentDynamics', 'env/planning_agent_environment.py')],
  ['step(), metrics(), reward(), observe()'])

p('C19', 'A rollout is exactly the recorded history of stepping the environment',
  'A rollout of n steps contains n+1 consecutive states starting at the reset state, the action applied, the metrics and reward observed and the observation at each of them, exactly as a manual loop over step would produce with the same random keys. Actor parameters and actor state are threaded through unchanged in order, and the last entry has an all-zero action.',
  ['inputs', 'histories', 'schedules'],
  'all scenes, actors (stateful, random, deterministic), number of steps, random keys',
  'Tests roll out a recorded scene with an expert; ordering of recorded values and key use is not compared with an independent loop.',
  ['env/rollout.py'],
  [('rollout / _step', 'env/rollout.py')],
  ['RolloutOutput'])

p('C20', 'The dm_env adapter obeys the dm_env episode protocol in every call order',
  'Every sequence of reset and step calls yields FIRST, MID..., LAST with the rewards, discounts and observations of the wrapped environment, LAST exactly when the episode is over, and discount 1 on a time-limit truncation. Stepping before reset, stepping a finished episode or reading the state before reset raises the documented error and leaves the adapter usable; reset always starts a new scenario from the data source, in order.',
  ['histories', 'inputs'],
  'all call sequences over any finite or infinite data source and any episode lengths',
  'Protocol bugs need particular call orders; the tests exercise one.',
  ['env/wrappers/dm_env_wrapper.py', 'env/abstract_environment.py', 'env/errors.py'],
  [('DMEnvWrapper.reset / step', 'env/wrappers/dm_env_wrapper.py')],
  ['TimeStep values and raised errors'])

p('C21', 'The Brax adapter is a pure functional view of the wrapped environment',
  'Brax-style reset returns the wrapped environment\'s reset state with its observation and metrics, zero reward, unit discount and the termination flag of that state as done. Brax-style step returns the wrapped environment\'s next state with that state\'s observation, done flag (terminated or truncated) and discount (zero exactly on termination), and the reward and metrics of the state and action it was given. This holds at every step of an episode, under jit or not, batched or not, and stepping never modifies the passed timestep.',
  ['inputs', 'histories'],
  'all scenes, actions and episode lengths',
  'Tests take one step on a recorded scene (not shipped).',
  ['env/wrappers/brax_wrapper.py'],
  [('BraxWrapper.reset / step', 'env/wrappers/brax_wrapper.py')],
  ['TimeStep fields'])

p('C22', 'Reactive agents follow their logged route at the speed their policy prescribes',
  'Waypoint-following agents stay on the line of their logged route, move forward by the distance implied by their policy speed, take their heading from the route, never move backwards, and stop or become invalid at the end of it as configured. The IDM policy slows for the nearest object on its own future path according to the intelligent driver model, ignores invalid objects, itself and objects not on its path, and never commands negative speed.',
  ['inputs', 'configurations', 'histories'],
  'all scenes, validity patterns, route shapes, leading-object placements, policy parameters and episode lengths',
  'Tests place one lead vehicle on a straight line.',
  ['agents/waypoint_following_agent.py'],
  [('WaypointFollowingPolicy.update_trajectory', 'agents/waypoint_following_agent.py'), ('IDMRoutePolicy.update_speed / _get_accel', 'agents/waypoint_following_agent.py')],
  ['actions of the agents; trajectories of the objects they control'])

p('C23', 'Actors control exactly the objects asked for, with the motion they promise',
  'Every actor returns an action for all objects together with a control mask equal to the one it was constructed with; the expert actor drives each object to its next logged state, and the constant-speed actor moves each object straight ahead at the given speed (or its current velocity). Merging the outputs of several actors gives each object the action of the last actor controlling it.',
  ['inputs', 'configurations'],
  'all scenes, control functions, actor sets and orders, agent configurations',
  'Tests use one scene (not shipped) per actor.',
  ['agents/actor_core.py', 'agents/expert.py', 'agents/constant_speed.py', 'agents/sim_agent.py', 'agents/agent_builder.py'],
  [('merge_actions', 'agents/actor_core.py'), ('create_expert_actor / create_constant_speed_actor', 'agents/expert.py'), ('create_sim_agents_from_config', 'agents/agent_builder.py')],
  ['WaymaxActorOutput'])

p('C24', 'Parsing a scenario record preserves its content',
  'Parsing a motion-dataset example gives a simulator state whose trajectories, metadata, map, lights and SDC paths are exactly the record contents in time order (past, current, future), with headings wrapped, one constant box size per object averaged over its valid steps, objects beyond the configured maximum cut off the end, and nothing else changed or lost; flags 0 and -1 mean missing. The state starts at the first timestep with only that step of the simulated trajectory filled in.',
  ['inputs', 'configurations'],
  'all records (counts, validity, feature values), with or without SDC paths, batch dims, truncation options',
  'The parser tests depend on a recorded example (not shipped) and compare shapes and a few values.',
  ['dataloader/womd_factories.py', 'dataloader/womd_utils.py', 'dataloader/womd_dataloader.py'],
  [('simulator_state_from_womd_dict and object/roadgraph/light factories', 'dataloader/womd_factories.py'), ('get_features_description', 'dataloader/womd_utils.py'), ('preprocess_womd_example', 'dataloader/womd_dataloader.py')],
  ['SimulatorState produced from a record'])

p('C25', 'Exporting a simulation to the record format and reading it back is lossless',
  'Writing a simulator state into the motion-dataset example format keeps, for every object and past or current time, the simulated (not logged) poses, the lights and the metadata, and declares exactly the documented feature keys, shapes and types; reading it back gives the same values. Metadata of invalid objects reads back as invalid. Data at times after the current step is never exported as valid.',
  ['inputs', 'histories'],
  'all simulator states at the exportable timestep, all object and map sizes',
  'The export test uses one recorded state (not shipped).',
  ['dataloader/womd_factories_internal.py', 'dataloader/womd_factories.py', 'dataloader/womd_utils.py'],
  [('simulator_state_to_womd_dict', 'dataloader/womd_factories_internal.py')],
  ['exported dictionary and its re-parse'])

p('C26', 'The data pipeline delivers each record exactly once per pass, in full batches',
  'Iterating a sharded dataset delivers every record of every file exactly once per repetition, in an order that is deterministic for given options, shaped by the configured batch dimensions, with incomplete batches handled as configured. Reading with different numbers of shards yields the same set of records, sharded file patterns name exactly the declared files, and shuffling only permutes.',
  ['inputs', 'configurations', 'schedules'],
  'all file counts, record counts, batch dims, repeat counts, seeds, shard counts, path names',
  'The tests read one fixture shard.',
  ['dataloader/dataloader_utils.py', 'dataloader/womd_dataloader.py'],
  [('tf_examples_dataset / get_data_generator / generate_sharded_filenames', 'dataloader/dataloader_utils.py')],
  ['multiset and order of delivered records'])

p('C27', 'Array and datatype utilities equal their NumPy definitions for every shape',
  'Dynamic indexing and slicing, updates in place of a slice, masked means, one-hot selection, shape and equality helpers, and the derived quantities of states and trajectories (positions, boxes, corners, speed, stacked fields) equal their direct array definitions for every index, axis and batch shape. Selecting, stacking and filling never alter other entries, and utilities that validate shapes or dtypes reject inconsistent inputs.',
  ['inputs'],
  'all shapes, axes, indices, dtypes and masks',
  'Unit tests cover one shape per utility.',
  ['datatypes/operations.py', 'datatypes/array.py', 'datatypes/object_state.py', 'datatypes/simulator_state.py', 'datatypes/action.py', 'datatypes/traffic_lights.py'],
  [('dynamic_slice / dynamic_index / update_by_slice_in_dim / masked_mean / select_by_onehot', 'datatypes/operations.py'), ('MaskedArray', 'datatypes/array.py'), ('Trajectory properties', 'datatypes/object_state.py')],
  ['return values'])

p('C28', 'Batching, vmapping and jitting never change results',
  'Running any environment operation (reset, step, reward, metrics, observe, termination) on a batch of scenarios gives, for each scenario, the same result as running it alone, whether batched by leading dimensions, vmapped, jitted or eager. Scenarios in one batch never influence each other.',
  ['inputs', 'schedules'],
  'all batches of differing scenarios at the same timestep, any leading batch rank, all dynamics models, metrics and sim agents',
  'Cross-talk between batch entries needs different scenarios in one batch; tests batch copies of one.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/operations.py', 'metrics/metric_factory.py', 'utils/geometry.py'],
  [('leading-dimension aware operations', 'datatypes/operations.py'), ('vmapped geometry and metrics', 'metrics/roadgraph.py')],
  ['results of batched and single runs'])

p('C29', 'Episodes last exactly as long as the log, and truncation marks their end',
  'From reset, an episode lasts exactly the number of logged steps left after warm-up: remaining time decreases by one per step, done becomes true exactly at the last logged timestep, truncation is reported from then on, and termination is never reported. These flags depend only on the timestep and the log length.',
  ['inputs', 'histories', 'configurations'],
  'all log lengths, warm-up lengths, timesteps, batch shapes',
  'Tests check one log length.',
  ['datatypes/simulator_state.py', 'env/base_environment.py', 'env/planning_agent_environment.py'],
  [('remaining_timesteps / is_done', 'datatypes/simulator_state.py'), ('termination / truncation', 'env/base_environment.py')],
  ['is_done, remaining_timesteps, termination, truncation'])

p('C30', 'A rendered frame draws the state it is given, and changes nothing',
  'Rendering a state or observation draws each valid object at its position, heading and size at the requested time, in the colour of its role (highlighted, other, or overlapping another object) and labelled with its index when asked, past positions as history points, with valid map points of drawable types and lights in the colour of their state, in a view centred on the SDC (or the chosen object) at that time; invalid objects, points and lights are not drawn. The image has the configured size, plotting does not mutate the state, rendering the same state twice gives the same picture, and a frame saved as PNG reads back unchanged.',
  ['inputs', 'configurations'],
  'all states, validity masks, timesteps, view configurations, batch indices, log or simulated trajectories',
  'Visualization tests only check that something was drawn for a recorded scene (not shipped).',
  ['visualization/viz.py', 'visualization/utils.py', 'visualization/color.py'],
  [('plot_simulator_state / plot_trajectory / plot_roadgraph_points / plot_traffic_light_signals_as_points', 'visualization/viz.py')],
  ['matplotlib artists on the axes and the returned image'])

p('C31', 'The choice of world frame never changes the outcome of a simulation',
  'Moving a whole scene (log, simulated poses, map, lights and routes) by one planar rotation and translation changes nothing but the frame: a step or reset of the moved scene gives the moved result (actions that are expressed in the world frame being rotated along), rewards, episode flags and every metric are the same, observations in the SDC or object frame are the same and observations in the global frame are moved, and the shipped agents control the same objects and take the same decisions.',
  ['inputs'],
  'all scenes, planar rigid motions, dynamics models, metrics, observation frames and shipped agents (up to float32 rounding; ties not judged)',
  'Tests use one recorded scene near the origin and compare numbers, never two frames of one scene; a term that mixes frames is invisible in axis-aligned hand-made scenes.',
  ['dynamics/bicycle_model.py', 'dynamics/delta.py', 'utils/geometry.py', 'metrics/roadgraph.py', 'metrics/route.py', 'metrics/overlap.py', 'metrics/comfort.py', 'datatypes/observation.py', 'agents/waypoint_following_agent.py'],
  [('rotation_matrix_2d / transform_points / has_overlap', 'utils/geometry.py'), ('observation frames', 'datatypes/observation.py'), ('projection onto the reference trajectory', 'agents/waypoint_following_agent.py')],
  ['step(), reset(), reward(), metrics, observations and agent actions on a scene and on the moved scene'])

p('C32', 'Object, light and route slots are interchangeable',
  'Permuting the object slots of a scene (with their metadata, actions and log), the traffic light slots or the SDC route slots permutes the results and changes nothing else: steps, resets, rewards, per-object metrics, observations and the decisions of the shipped agents belong to the object and not to the index it is stored at. In particular the SDC may sit in any slot.',
  ['inputs', 'configurations'],
  'all scenes, permutations of the slots, dynamics models, metrics and shipped agents (ties not judged)',
  'In recorded scenes the SDC is always stored in the same slot, so an index that should have been a mask gives the same answer in every test.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/operations.py', 'datatypes/observation.py', 'metrics/overlap.py', 'metrics/route.py', 'rewards/linear_combination_reward.py', 'agents/waypoint_following_agent.py'],
  [('select_by_onehot', 'datatypes/operations.py'), ('sdc slicing', 'datatypes/observation.py'), ('merge of the agents\' actions', 'agents/actor_core.py')],
  ['step(), reset(), reward(), metrics, observations and agent actions before and after the permutation'])

p('C33', 'Data marked invalid never influences anything valid',
  'What stands in entries that are marked invalid (poses of absent objects, invalid map points, lights and route points), and how many such padding slots a scene carries, never changes a valid result: the poses of present objects after a step or reset, rewards of present objects, episode flags, valid metric values, valid entries of the observations of present objects, and which objects the shipped agents control and the actions they take for present objects.',
  ['inputs', 'configurations'],
  'all scenes and validity patterns, all finite contents of invalid entries, any number of padding slots; poses entering at the next step of objects that are controlled, the log at the first step and at the end of the drive of the SDC, and the ids of invalid map points excepted',
  'Invalid entries of test data always hold the same placeholder, and padding never varies, so a forgotten mask shows only by accident.',
  ['metrics/overlap.py', 'metrics/roadgraph.py', 'metrics/route.py', 'metrics/comfort.py', 'metrics/imitation.py', 'datatypes/observation.py', 'datatypes/roadgraph.py', 'agents/waypoint_following_agent.py', 'agents/sim_agent.py', 'env/base_environment.py'],
  [('validity masks of metrics', 'metrics/abstract_metric.py'), ('filter_topk_roadgraph_points', 'datatypes/roadgraph.py'), ('valid future objects of the lead search', 'agents/waypoint_following_agent.py')],
  ['step(), reset(), reward(), metrics, observations and agent actions with other contents in invalid entries'])

p('C34', 'Nothing is decided with hindsight: results never depend on the future',
  'What a state says about times after its current timestep (later columns of the simulated trajectory and of the traffic lights, logged poses later than the next step) never changes the results of the present: the reset state, the state after one step up to its new timestep, rewards, episode flags, all metrics except progression (which is defined by the logged end), observations, and the frozen and constant-speed actors. Route followers and expert actors, which use the logged future by definition, are excepted.',
  ['inputs', 'histories'],
  'all scenes, timesteps and replacements of the future, all dynamics models, metrics and observation frames',
  'Comparing two runs that differ only in the future needs two scenes that agree up to now; every test has just one.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/observation.py', 'dynamics/abstract_dynamics.py', 'metrics/comfort.py', 'metrics/imitation.py', 'metrics/roadgraph.py'],
  [('dynamic_slice at the current timestep', 'datatypes/operations.py'), ('history window of an observation', 'datatypes/observation.py')],
  ['step(), reset(), reward(), metrics and observations of two states that differ only in their future'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
  for d in P:
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
    f.write(json.dumps(d) + '\n')
print(len(P))
