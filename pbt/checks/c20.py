"""C20: the dm_env adapter obeys the dm_env protocol in every call order."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from harness import Registry, Violation, close, eq, require, tree_close, tree_eq

R = Registry('C20', 'Random call histories (reset, step, state access, specs) on '
             'the adapter over single- and multi-agent environments, finite data '
             'sources with scenarios of different lengths (including already '
             'finished ones), environments that terminate, discrete actions and '
             'batches, against a protocol automaton and the wrapped environment '
             'run by hand. Non-trivial: a history that steps after a reset or '
             'provokes one of the documented errors.',
             ['the adapter may read one scenario ahead when it is constructed '
              '(it needs a sample for observation_spec)'])
N, INIT = 2, 2
LENGTHS = (5, 3, 5, 3, 2)  # T=2 is already over after a warm-up of two steps.


def make_env(kind):
  """kind: (single/multi, dynamics, terminate?)"""
  from waymax import datatypes, dynamics, env as E
  import jax.numpy as jnp
  agents, dyn, term = kind
  base = E.PlanningAgentEnvironment if agents == 'single' else E.BaseEnvironment

  class Env(base):

    def reward(self, state, action):
      # Depends on state and action, in every component.
      a = action.data.sum(-1) * 0.5 + action.valid[..., 0]
      x = state.current_sim_trajectory.x[..., 0]
      if agents == 'single':
        x = x.sum(-1)
      return jnp.asarray(a + x + state.timestep * 100.0, jnp.float32)

    def termination(self, state):
      if not term:
        return super().termination(state)
      # Object 0 beyond the line ends an episode.
      return state.current_sim_trajectory.x[..., 0, 0] > 5.0

  if dyn == 'discrete':
    d = dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), bins=np.array([3, 2, 4]))
  else:
    d = envs.DYNS[dyn].make()
  return Env(d, envs.config('SDC', True, INIT, N, compute_reward=False))


KINDS = (('single', 'delta_global', False), ('multi', 'bicycle', False),
         ('single', 'delta_global', True), ('single', 'discrete', False),
         ('multi', 'delta_global', True))


@st.composite
def case(draw, batch=0):
  # Terminating batches mostly end in the documented refusal of mixed ends.
  kind = draw(st.sampled_from((KINDS[0], KINDS[1], KINDS[2], KINDS[1], KINDS[2]) if batch else KINDS))
  nsc = draw(st.integers(2, 5))
  scs = []
  for _ in range(nsc):
    T = draw(st.sampled_from((3, 3, 5, 3, 2) if batch else LENGTHS))
    one = [draw(gens.scenario(N=N, T=T, P=2, L=1)) for _ in range(batch or 1)]
    if kind[2]:  # near the termination line at x = 5
      for o in one:
        o['log']['x'][0] *= np.float32(0.15)
        o['log']['x'][0] += np.float32(draw(st.sampled_from((0, 3, 7))))
        o['log']['valid'][0] = True
    scs.append(gens.stack_cases(one) if batch else one[0])
  ops = draw(st.lists(st.one_of(
      st.tuples(st.just('reset')), st.tuples(st.just('step'), st.binary(min_size=12, max_size=12)),
      st.tuples(st.just('step'), st.binary(min_size=12, max_size=12)),
      st.tuples(st.just('step'), st.binary(min_size=12, max_size=12)),
      st.tuples(st.just('state')), st.tuples(st.just('spec'))), min_size=2 if batch else 4, max_size=16))
  if draw(st.integers(0, 3)):
    # Start episodes early and mostly let them run.
    ops = [('reset',)] + [o for i, o in enumerate(ops) if o[0] != 'reset' or i % 3 == 0]
  if batch and draw(st.booleans()):
    # Several episodes in a row, each run to (or past) its end.
    step = lambda: ('step', draw(st.binary(min_size=12, max_size=12)))
    ops = []
    for _ in range(nsc):
      ops += [('reset',)] + [step() for _ in range(draw(st.integers(1, 3)))]
  return dict(kind=kind, scs=scs, b=batch, ops=ops)


def parts(kind):
  def make():
    import jax
    e = make_env(kind)
    return e, jax.jit(e.reset), jax.jit(e.step), jax.jit(e.reward)
  return envs.cached(('c20', kind), make)


def action_for(kind, batch, raw):
  """Raw action in the adapter's own format."""
  v = np.frombuffer(raw, np.int8).astype(np.float32) / 32.0
  agents, dyn, _ = kind
  lead = (batch,) if batch else ()
  if dyn == 'discrete':
    return np.int32(abs(int(raw[0])) % 60) if not lead else (
        np.frombuffer(raw, np.uint8)[:batch].astype(np.int32) % 60)
  dim = envs.DYNS[dyn].dim
  shape = lead + ((dim,) if agents == 'single' else (N, dim))
  return np.resize(v, shape).astype(np.float32)


def run(c):
  import dm_env
  from waymax import datatypes
  from waymax.env import errors
  from waymax.env.wrappers import dm_env_wrapper
  import jax.numpy as jnp
  kind, b = tuple(c['kind']), c['b']
  e, freset, fstep, freward = parts(kind)
  lead = (b,) if b else ()
  states = [gens.to_state(s, 0) for s in c['scs']]
  pulls = []

  def source():
    for i, s in enumerate(states):
      pulls.append(i)
      yield s
  w = dm_env_wrapper.DMEnvWrapper(source(), e)
  require(len(pulls) <= 1, 'constructor consumed', len(pulls), 'scenarios')
  cur, done, labels = None, False, set()
  nextsc = None  # index the next reset must deliver
  for op in c['ops']:
    if op[0] == 'reset':
      before = len(pulls)
      try:
        ts = w.reset()
        err = None
      except errors.SimulationNotInitializedError as x:
        err = x
      except StopIteration:
        require(before == len(states), 'the data source is not exhausted')
        labels.add('exhausted')
        break
      require(len(pulls) == before + 1, 'reset consumed', len(pulls) - before, 'scenarios')
      i = pulls[-1]
      if nextsc is not None:
        require(i == nextsc, 'scenario order', i, nextsc)
      nextsc = i + 1
      m = freset(states[i])
      if c['scs'][i]['log']['x'].shape[-1] <= INIT:
        require(err is not None, 'a finished scenario was started')
        cur, done = None, False
        labels.add('finished scenario')
        continue
      require(err is None, 'reset of a running scenario failed')
      cur, done = m, False
      require(ts.step_type == dm_env.StepType.FIRST and ts.first(), 'step type', ts.step_type)
      require(ts.reward is None and ts.discount is None, 'FIRST carries a reward or discount')
      tree_close(ts.observation, e.observe(m), 'first observation: ', 1e-4)
    elif op[0] == 'step':
      raw = action_for(kind, b, op[1])
      try:
        ts = w.step(raw)
        err = None
      except (errors.SimulationNotInitializedError, errors.EpisodeAlreadyFinishedError) as x:
        err = type(x).__name__
      except NotImplementedError as x:
        err = 'mixed'
      if cur is None:
        require(err == 'SimulationNotInitializedError', 'step before reset:', err)
        labels.add('step before reset')
        continue
      if done:
        require(err == 'EpisodeAlreadyFinishedError', 'step after the end:', err)
        labels.add('step after end')
        continue
      data = np.asarray(raw)[..., None] if kind[1] == 'discrete' else np.asarray(raw)
      act = datatypes.Action(data=jnp.asarray(data), valid=jnp.ones(data.shape[:-1] + (1,), bool))
      rew = np.asarray(freward(cur, act))
      nxt = fstep(cur, act)
      term = np.asarray(e.termination(nxt))
      trunc = np.asarray(e.truncation(nxt))
      x0 = np.asarray(nxt.current_sim_trajectory.x)[..., 0, 0]
      if kind[2] and (np.abs(x0 - 5.0) < 1e-3).any():
        return labels  # too close to the termination line
      fin = term | trunc
      require(term.shape == lead and trunc.shape == lead, 'flag shape', term.shape, trunc.shape)
      if fin.any() and not fin.all():
        require(err == 'mixed', 'mixed batch:', err)
        labels.add('mixed')
        return labels
      require(err is None, 'step raised', err)
      cur = nxt
      done = bool(fin.all())
      want = dm_env.StepType.LAST if done else dm_env.StepType.MID
      require(ts.step_type == want, 'step type', ts.step_type, 'expected', want)
      require(np.asarray(ts.reward).shape == rew.shape, 'reward shape', np.asarray(ts.reward).shape)
      close(np.asarray(ts.reward), rew, 'reward', 1e-3 + 1e-5 * np.abs(rew))
      close(np.broadcast_to(np.asarray(ts.discount, np.float32), lead), (~term).astype(np.float32), 'discount', 0)
      tree_close(ts.observation, e.observe(nxt), 'observation: ', 1e-3)
      left = c['scs'][pulls[-1]]['log']['x'].shape[-1] - 1 - int(np.asarray(nxt.timestep))
      if not kind[2]:
        require(done == (left == 0), 'LAST with', left, 'steps left')
      labels.add('terminated' if term.any() else 'truncated' if done else 'mid')
    elif op[0] == 'state':
      try:
        s = w.simulation_state
      except errors.SimulationNotInitializedError:
        require(cur is None, 'state not readable after reset')
        labels.add('state before reset')
        continue
      require(cur is not None, 'simulation_state readable before reset')
      tree_close(s, cur, 'simulation_state: ', 1e-3)
    else:
      spec = w.action_spec()
      want = {'discrete': ()}.get(kind[1], (envs.DYNS.get(kind[1]) and envs.DYNS[kind[1]].dim,))
      if kind[0] == 'multi':
        want = (N,) + tuple(want)
      require(tuple(spec.shape) == tuple(want), 'action spec', spec, want)
      lo, hi = (0, 59) if kind[1] == 'discrete' else (
          -ref.Dyn(kind[1]).spec, ref.Dyn(kind[1]).spec)
      close(np.broadcast_to(np.asarray(spec.minimum, float), spec.shape), np.broadcast_to(lo, want), 'spec minimum', 1e-6)
      close(np.broadcast_to(np.asarray(spec.maximum, float), spec.shape), np.broadcast_to(hi, want), 'spec maximum', 1e-6)
      eq(np.dtype(spec.dtype), np.dtype(np.int32 if kind[1] == 'discrete' else np.float32), 'spec dtype')
      ospec = w.observation_spec()
      sample = freset(states[0])
      require(tuple(ospec.sim_trajectory.x.shape) == np.asarray(sample.sim_trajectory.x).shape[len(lead):],
              'observation spec', ospec.sim_trajectory.x)
      require(w.reward_spec().shape == e.reward_spec().shape, 'reward spec')
      require(w.discount_spec().shape == e.discount_spec().shape, 'discount spec')
      require(w.config is e.config and w.stateless_env is e, 'config')
  return labels


@R.law(case(), quick=140, name='call history')
def history(c):
  return run(c)


@R.law(case(batch=2), quick=60, name='call history of a batch')
def history_batch(c):
  return run(c)


@R.law(st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**31), records=st.integers(2, 3), steps=st.integers(1, 3),
    agents=st.sampled_from(['SDC,NON_SDC', 'NON_SDC,SDC', 'none', 'NON_SDC', 'SDC,NON_SDC', 'empty']),
    wrong=st.sampled_from(['MODELED', 'VALID', 'NON_SDC']),
    action=st.lists(st.integers(-60, 60), min_size=6, max_size=6), reward=st.booleans())),
       quick=10, name='environment built from configs')
def factory(c):
  """make_sdc_dm_environment against the environment the configs describe,
  stepped by hand over the states of the same data config."""
  import dataclasses
  import shutil
  import tempfile
  import jax
  import jax.numpy as jnp
  import tensorflow as tf
  import records
  from waymax import agents as A, config as C, datatypes, dynamics, env as E
  from waymax.dataloader import womd_dataloader as wl
  from waymax.env.wrappers import dm_env_wrapper
  d = tempfile.mkdtemp(prefix='c20_')
  try:
    with tf.io.TFRecordWriter(f'{d}/r-00000-of-00001') as w:
      for i in range(c['records']):
        r = records.record(c['seed'] + i, 'all', points=30)
        r['state/is_sdc'][:] = 0
        r['state/is_sdc'][(c['seed'] + i) % 8] = 1
        r['roadgraph_samples/id'][0, 0] = 1000 + i
        # A crowd driving at moderate speed, so that following agents matter.
        rng = np.random.Generator(np.random.PCG64(c['seed'] + i))
        n = r['state/id'].shape[0]
        head, speed = rng.uniform(-3, 3, (n, 1)), rng.uniform(8, 20, (n, 1))
        start = rng.uniform(-60, 60, (2, n, 1))
        for t, off, k in (('past', 0, 10), ('current', 10, 1), ('future', 11, 80)):
          s = (np.arange(k) + off)[None] * 0.1 * speed
          for a, v in (('x', start[0] + s * np.cos(head)), ('y', start[1] + s * np.sin(head)),
                       ('z', 0 * s), ('bbox_yaw', head + 0 * s), ('velocity_x', speed * np.cos(head) + 0 * s),
                       ('velocity_y', speed * np.sin(head) + 0 * s)):
            r[f'state/{t}/{a}'][:] = v.astype(np.float32)
        w.write(records.serialize(r))
    data = C.DatasetConfig(path=f'{d}/r@1', repeat=1, num_shards=1, batch_dims=(), max_num_rg_points=30,
                           max_num_objects=8)
    kinds = [] if c['agents'] in ('none', 'empty') else c['agents'].split(',')
    conf = C.EnvironmentConfig(
        max_num_objects=8, controlled_object=C.ObjectType.SDC, compute_reward=c['reward'],
        sim_agents=None if c['agents'] == 'none' else [
            C.SimAgentConfig(C.SimAgentType.IDM, C.ObjectType[k]) for k in kinds])
    try:
      dm_env_wrapper.make_sdc_dm_environment(
          dynamics.InvertibleBicycleModel(), data,
          dataclasses.replace(conf, controlled_object=C.ObjectType[c['wrong']]))
      raise Violation('an environment controlling', c['wrong'], 'was accepted')
    except ValueError:
      pass
    states = {int(s.roadgraph_points.ids[0]): s for s in wl.simulator_state_generator(data)}
    require(len(states) == c['records'], 'states of the data config', len(states))

    def make():
      own = {'NON_SDC': lambda s: ~s.object_metadata.is_sdc, 'SDC': lambda s: s.object_metadata.is_sdc}
      e = E.PlanningAgentEnvironment(
          dynamics.InvertibleBicycleModel(), conf,
          [A.IDMRoutePolicy(own[k]) for k in kinds], [{} for _ in kinds])
      return e, jax.jit(e.step), jax.jit(e.reward)
    e, fstep, freward = envs.cached(('c20f', c['agents'], c['reward']), make)
    w = dm_env_wrapper.make_sdc_dm_environment(dynamics.InvertibleBicycleModel(), data, conf)
    eq(w.config, conf, 'config')
    require(tuple(w.action_spec().shape) == (2,), 'action spec', w.action_spec())
    seen, labels = [], set()
    while True:
      try:
        ts = w.reset()
      except StopIteration:
        break
      key = int(w.simulation_state.roadgraph_points.ids[0])
      seen.append(key)
      cur = e.reset(states[key])
      tree_close(w.simulation_state, cur, 'state after reset: ', 1e-4)
      tree_close(ts.observation, e.observe(cur), 'first observation: ', 1e-4)
      for i in range(c['steps']):
        a = np.array(c['action'][2 * i:2 * i + 2], np.float32) / np.float32([12, 240])
        act = datatypes.Action(data=jnp.asarray(a), valid=jnp.ones((1,), bool))
        rew = np.asarray(freward(cur, act))
        nxt = fstep(cur, act)
        ts = w.step(a)
        tree_close(w.simulation_state, nxt, f'state after step {i}: ', 1e-3)
        close(np.asarray(ts.reward), rew, 'reward', 1e-4)
        tree_close(ts.observation, e.observe(nxt), 'observation: ', 1e-3)
        if kinds and np.abs(np.asarray(nxt.current_sim_trajectory.x - nxt.current_log_trajectory.x)).max() > .01:
          labels.add('agents acted: ' + c['agents'])
        labels.add('rewarded' if rew.any() else 'stepped')
        cur = nxt
    require(len(seen) == len(set(seen)), 'a scenario was delivered twice', seen)
    require(len(seen) >= c['records'] - 1, 'scenarios delivered', seen, 'of', sorted(states))
    return labels
  finally:
    shutil.rmtree(d, ignore_errors=True)
