"""C28: batching, vmapping and jitting never change results."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from checks import c18
from batching import (EMPTY, N, P, T, batch, compare, diff, draw_actions, emptied,
                      judge, leaves, scenes, stacked)
from harness import Registry, require

R = Registry('C28', 'Groups of 2-4 independently drawn scenes. Oracle: the same '
             'operation on each scene alone (jitted), against leading-dimension '
             'batches of rank 1 and 2 (shared scalar or per-scene timesteps), '
             'vmap, and eager runs; plus bit-exact independence of one entry '
             'from the (possibly NaN) contents of the others. Non-trivial: the '
             'scenes differ.',
             ['results are compared within float32 rounding; a difference '
              'counts when it survives three small shifts of all positions '
              '(so ties and exact contacts are not judged)',
              'road maps, lights and paths have the same sizes in one batch'])
DYN = ('bicycle', 'delta_global', 'delta_local', 'state', 'bicycle_norm')


# ---------------------------------------------------------- environment ------
@st.composite
def env_case(draw):
  c = draw(scenes())
  kind = draw(st.sampled_from(DYN))
  # Six configurations per dynamics model would all need compiling: two each.
  i = DYN.index(kind)
  c['kind'] = kind
  c['ctrl'], c['inj'] = [('VALID', False), ('MODELED', True), ('VALID', True),
                         ('SDC', True), ('VALID', False)][i]
  c['act'] = draw_actions(draw, envs.DYNS[kind].dim, len(c['scs']))
  return c


@R.law(env_case(), quick=100, name='multi-agent environment')
def multi(c):
  def make():
    from waymax import config as C, env as E
    e = E.BaseEnvironment(envs.DYNS[c['kind']].make(), envs.config(
        c['ctrl'], c['inj'], 2, N,
        rewards=C.LinearCombinationRewardConfig(
            rewards={'log_divergence': -0.1, 'kinematic_infeasibility': 2.0})))

    def f(s, a):
      from waymax import datatypes
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      nxt = e.step(s, act)
      return dict(reset=e.reset(s), next=nxt, next_reward=e.reward(nxt, act),
                  observe=e.observe(s), reward=e.reward(s, act), done=nxt.is_done,
                  remaining=nxt.remaining_timesteps, trunc=e.truncation(nxt),
                  term=e.termination(nxt),
                  inverse=e.dynamics.inverse(s.log_trajectory, s.object_metadata, 2))
    return f
  return compare(('multi', c['kind']), make, c, c['act'], [c['kind']])


@R.law(scenes(shapes=((2,), (2, 2))), quick=90, name='metrics and observations')
def metrics(c):
  def make():
    from waymax import config as C, datatypes, metrics as M
    cfg = C.MetricsConfig(metrics_to_run=c18.METRICS)

    def f(s, _):
      m = M.run_metrics(s, cfg)
      return dict(metrics={k: (v.masked_value(), v.valid) for k, v in m.items()},
                  obs=datatypes.observation_from_state(s, 2, P),
                  sdc=datatypes.sdc_observation_from_state(s, 2, P - 2),
                  cur=s.current_sim_trajectory, log=s.current_log_trajectory,
                  corners=s.sim_trajectory.bbox_corners, points=s.sdc_paths.xyz)
    return f
  return compare('metrics', make, c)


PLAN = ('', 'idm', 'const+frozen', 'idm+const')


@st.composite
def plan_case(draw):
  c = draw(scenes(shapes=((2,), (2, 2))))
  c['which'] = draw(st.sampled_from(PLAN))
  c['act'] = draw_actions(draw, 2, len(c['scs']), multi=False)
  return c


@R.law(plan_case(), quick=70, name='planning environment')
def planning(c):
  def make():
    from waymax import config as C, env as E
    ag = c18.shipped(c['which']) if c['which'] else []
    e = E.PlanningAgentEnvironment(
        envs.DYNS['bicycle'].make(), envs.config(
            'SDC', True, 2, N,
            metrics=C.MetricsConfig(metrics_to_run=('log_divergence', 'kinematic_infeasibility', 'overlap')),
            rewards=C.LinearCombinationRewardConfig(rewards={'log_divergence': 1.0, 'overlap': -1.0})),
        ag, [{}] * len(ag))

    def f(s, a):
      from waymax import datatypes
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      start = e.reset(s)
      s = E.PlanningAgentSimulatorState(**s).replace(
          sim_agent_actor_states=start.sim_agent_actor_states)
      nxt = e.step(s, act)
      m = e.metrics(nxt)
      return dict(reset=start, next=nxt, reward=e.reward(nxt, act),
                  metrics={k: (v.masked_value(), v.valid) for k, v in m.items()},
                  m0={k: (v.masked_value(), v.valid) for k, v in e.metrics(s).items()},
                  trunc=e.truncation(nxt), term=e.termination(nxt),
                  inverse=e.dynamics.inverse(s.log_trajectory, s.object_metadata, 2))
    return f
  return compare(('plan', c['which']), make, c, c['act'], [c['which'] or 'no agents'])


@R.law(scenes(shapes=((2,), (1, 2))), quick=70, name='agents')
def agents(c):
  def make():
    from waymax import agents as A
    from waymax.agents import constant_speed
    acts = dict(idm=A.IDMRoutePolicy(), const=constant_speed.ConstantSpeedPolicy(speed=4.0),
                frozen=A.FrozenSimPolicy(),
                speed=A.create_constant_speed_actor(envs.DYNS['state'].make(), lambda s: s.object_metadata.is_sdc, speed=3.0))
    for k in ('bicycle', 'delta_local', 'state'):
      acts['expert_' + k] = A.create_expert_actor(envs.DYNS[k].make())

    def f(s, _):
      out = {}
      for k, a in acts.items():
        o = a.select_action({}, s, None, None)
        out[k] = dict(data=o.action.data * o.action.valid, valid=o.action.valid, on=o.is_controlled)
      return out
    return f
  return compare('agents', make, c)


@st.composite
def full_scenes(draw):
  scs = [draw(gens.big(P=1000, K=8, M=60)) for _ in range(2)]
  for sc in scs:
    sc['timestep'] = max(sc['timestep'], 1)
    if draw(st.booleans()):
      sc['timestep'] = scs[0]['timestep']
  return dict(shape=[2], scs=scs, ts=[sc['timestep'] for sc in scs], scalar=draw(st.booleans()))


@R.law(full_scenes(), quick=15, name='full-size scenes', rule='128 objects, 91 steps, 1000 points')
def full_size(c):
  return metrics(c) + agents(c)


# ------------------------------------------------------------ independence ---
@st.composite
def poison_case(draw):
  c = draw(scenes(shapes=((2,),)))
  c['shape'] = [3]
  c['scalar'] = False
  # Entry 1 is watched; entries 0 and 2 are replaced.
  c['other'] = draw(gens.scenario(N=N, T=T, P=P, L=2, K=2, M=4, sim='free', mode='wild'))
  c['other']['timestep'] = draw(st.integers(1, T - 2))
  emptied(c['other'], draw(st.sampled_from(EMPTY)))
  c['poison'] = draw(st.sampled_from(['none', 'nan', 'inf', 'huge']))
  c['act'] = draw_actions(draw, 2, 4)
  return c


@R.law(poison_case(), quick=90, name='entries do not influence each other')
def poison(c):
  import jax

  def make():
    from waymax import agents as A, config as C, datatypes, env as E, metrics as M
    e = E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config(
        'VALID', False, 2, N, rewards=C.LinearCombinationRewardConfig(
            rewards={'log_divergence': -0.1, 'overlap': 2.0, 'sdc_progression': 1.0})))
    cfg = C.MetricsConfig(metrics_to_run=c18.METRICS)
    idm = A.IDMRoutePolicy()

    def f(s, a):
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      m = M.run_metrics(s, cfg)
      o = idm.select_action({}, s, None, None)
      return dict(next=e.step(s, act), reset=e.reset(s), reward=e.reward(s, act),
                  metrics={k: (v.value, v.valid) for k, v in m.items()},
                  obs=datatypes.observation_from_state(s, 2, P - 1), idm=o.action, on=o.is_controlled)
    return jax.jit(f)
  f = envs.cached('c28poison', make)
  a, b = c['scs']
  other = dict(c['other'])
  bad = {'nan': np.nan, 'inf': np.inf, 'huge': 3e38}.get(c['poison'])
  if bad is not None:
    for part in ('log', 'sim', 'rg', 'paths'):
      other[part] = {k: (np.full_like(v, bad) if v.dtype == np.float32 else v)
                     for k, v in other[part].items()}
  acts = c['act']
  pois = dict(acts[3])
  if bad is not None:
    pois['data'] = np.full_like(pois['data'], bad)
  one = f(batch([a, b, a], [3], False)[0], stacked(acts[:3], [3]))
  two = f(batch([other, b, other], [3], False)[0], stacked([pois, acts[1], pois], [3]))
  for (p, x), (_, y) in zip(leaves(one), leaves(two)):
    if x.ndim == 0 or 'reset' in p and 'timestep' in p:
      continue
    same = (x[1] == y[1]) | ((x[1] != x[1]) & (y[1] != y[1]))
    require(np.all(same), p, 'of one scene changes with the other scenes in its batch:',
            x[1], 'vs', y[1])
  return [c['poison']]


# -------------------------------------------------------------------- eager --
@st.composite
def eager_case(draw):
  c = draw(scenes(shapes=((2,),)))
  c['kind'] = draw(st.sampled_from(('bicycle', 'delta_local')))
  c['ctrl'] = draw(st.sampled_from(('SDC', 'VALID')))
  c['act'] = draw_actions(draw, envs.DYNS[c['kind']].dim, 2)
  return c


@R.law(eager_case(), quick=8, thorough=200, name='eager and jitted')
def eager(c):
  import jax

  def make():
    from waymax import config as C, datatypes, env as E, metrics as M
    e = E.BaseEnvironment(envs.DYNS[c['kind']].make(), envs.config(c['ctrl'], True, 2, N))
    cfg = C.MetricsConfig(metrics_to_run=c18.METRICS)

    def f(s, a):
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      m = M.run_metrics(s, cfg)
      return dict(reset=e.reset(s), next=e.step(s, act), reward=e.reward(s, act),
                  metrics={k: (v.masked_value(), v.valid) for k, v in m.items()},
                  obs=datatypes.observation_from_state(s, 2, P))
    return f
  g = make()
  f1 = envs.cached(('c28e', c['kind'], c['ctrl']), lambda: jax.jit(make()))
  fb = envs.cached(('c28eb', c['kind'], c['ctrl']), lambda: jax.jit(make()))

  def run(scs):
    acts = c['act']
    sb, _ = batch(scs, [2], False)
    ab = stacked(acts, [2])
    m = diff(g(sb, ab), [jax.tree_util.tree_map(lambda x, i=i: x[i] if np.ndim(x) else x, fb(sb, ab))
                         for i in range(2)], [2], ['timestep'])
    if m:
      return 'eager vs jitted (batched): ' + m
    # One environment object serves scene after scene.
    for sc, a in zip(scs, acts):
      s = gens.to_state(sc)
      m = diff(jax.tree_util.tree_map(lambda x: np.asarray(x)[None], g(s, a)), [f1(s, a)], [1], [])
      if m:
        return 'eager vs jitted: ' + m
    return None
  judge(c, run)
  return [c['kind'], c['ctrl']]
