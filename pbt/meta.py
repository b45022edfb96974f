"""Everything an environment computes from one scene, for metamorphic laws."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from checks import c18
from batching import EMPTY, emptied, nudged
from harness import Violation

N, T, P, L, K, M = 4, 6, 6, 2, 2, 4
# (controlled objects, injection of new objects) of the environment per dynamics
CTRL = dict(bicycle=('VALID', False), delta_global=('MODELED', True), delta_local=('VALID', True),
            state=('SDC', True), bicycle_norm=('VALID', False))
PLAN = ('', 'idm', 'const+frozen')
REWARD = {'log_divergence': -0.5, 'overlap': 2.0, 'kinematic_infeasibility': 1.0}


def env_fn(kind, n=N):
  """step, reset, reward of the multi-agent environment."""
  import jax

  def make():
    from waymax import config as C, datatypes, env as E
    ctrl, inj = CTRL[kind]
    e = E.BaseEnvironment(envs.DYNS[kind].make(), envs.config(
        ctrl, inj, 2, n, rewards=C.LinearCombinationRewardConfig(rewards=REWARD)))

    def f(s, a):
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      nxt = e.step(s, act)
      return dict(next=nxt.sim_trajectory, reset=e.reset(s).sim_trajectory, reward=e.reward(s, act),
                  flags=(nxt.is_done, nxt.remaining_timesteps, e.truncation(nxt), e.termination(nxt)))
    return jax.jit(f)
  return envs.cached(('meta env', kind, n), make)


def scene_fn(n=N):
  """Metrics, observations and agents."""
  import jax

  def make():
    from waymax import agents as A, config as C, datatypes as d, metrics as Mx
    from waymax.agents import constant_speed
    cfg = C.MetricsConfig(metrics_to_run=c18.METRICS)
    ag = dict(idm=A.IDMRoutePolicy(), frozen=A.FrozenSimPolicy(), const=constant_speed.ConstantSpeedPolicy(speed=4.0),
              expert=A.create_expert_actor(envs.DYNS['state'].make()),
              speed=A.create_constant_speed_actor(envs.DYNS['state'].make(), lambda s: s.object_metadata.is_valid, speed=3.0))

    def f(s):
      m = Mx.run_metrics(s, cfg)
      out = {}
      for k, a in ag.items():
        o = a.select_action({}, s, None, None)
        out[k] = dict(data=o.action.data, on=o.is_controlled & o.action.valid[..., 0], mask=o.is_controlled)
      return dict(metrics={k: (v.value, v.valid) for k, v in m.items()}, agents=out,
                  glob=d.observation_from_state(s, 2, P - 2, coordinate_frame=C.CoordinateFrame.GLOBAL),
                  sdc=d.sdc_observation_from_state(s, 2, P - 2),
                  obj=d.observation_from_state(s, 2, P - 2, coordinate_frame=C.CoordinateFrame.OBJECT))
    return jax.jit(f)
  return envs.cached(('meta scene', n), make)


def plan_fn(which, n=N):
  """The planning environment with the shipped agents."""
  import jax

  def make():
    from waymax import config as C, datatypes, env as E
    ag = c18.shipped(which) if which else []
    e = E.PlanningAgentEnvironment(
        envs.DYNS['delta_local'].make(), envs.config(
            'SDC', True, 2, n, metrics=C.MetricsConfig(metrics_to_run=('log_divergence', 'overlap')),
            rewards=C.LinearCombinationRewardConfig(rewards=dict(REWARD))), ag, [{}] * len(ag))

    def f(s, a):
      act = datatypes.Action(data=a['data'], valid=a['valid'])
      s = E.PlanningAgentSimulatorState(**s).replace(sim_agent_actor_states=[None] * len(ag))
      nxt = e.step(s, act)
      return dict(next=nxt.sim_trajectory, reward=e.reward(s, act),
                  metrics={k: (v.value, v.valid) for k, v in e.metrics(s).items()})
    return jax.jit(f)
  return envs.cached(('meta plan', which, n), make)


def lane(draw, sc):
  """Puts all objects, and the paths, behind and beside each other on one lane."""
  src = gens.Src(draw, 16 * N + 8 * K + 16)
  th = src.sym((), 3.14)
  s0, d0 = src.unit((N, 1), 0, 22), src.sym((N, 1), 2.0)
  v = src.unit((N, 1), 0, 14)
  if draw(st.booleans()):  # side by side
    s0[0], d0[0] = 0.0, d0[0] / 4
    s0[1:] = s0[1] / 2 + 5 + src.sym((N - 1, 1), 1.0, 1.0)
    d0[1:] /= 2
  head = th + src.sym((N, 1), 0.12)
  c, s = np.cos(th), np.sin(th)
  along = s0 + v * 0.1 * np.arange(T)
  dev = src.sym((N, 1), 0.6) * (np.arange(T) > 0)
  for part, lat in (('log', d0 + 0 * along), ('sim', d0 + dev)):
    tr = sc[part]
    tr['x'][:], tr['y'][:] = c * along - s * lat, s * along + c * lat
    tr['yaw'][:] = ref.wrap(head + 0 * along)
    tr['vel_x'][:], tr['vel_y'][:] = v * c + 0 * along, v * s + 0 * along
    tr['length'][:], tr['width'][:] = src.unit((N, 1), 2, 5), src.unit((N, 1), 1, 2.2)
    tr['valid'][:] |= src.bits((N, 1), 190)
  sc['md']['is_valid'] |= src.bits(N, 200)
  ego = s0[sc['md']['is_sdc']].reshape(-1)[0]
  step = src.unit((K, 1), .5, 3) * np.arange(M)
  turn = src.sym((K, 1), 0.08) * np.arange(M)
  along, lat = ego - src.unit((K, 1), 0, 2) + step, src.sym((K, 1), 4) + step * turn
  p = sc['paths']
  p['x'][:], p['y'][:] = c * along - s * lat, s * along + c * lat
  p['arc_length'][:] = step
  return sc


@st.composite
def case(draw, wild=True):
  sc = draw(gens.scenario(N=N, T=T, P=P, L=L, K=K, M=M, sim='free',
                          mode=draw(st.sampled_from(['smooth', 'smooth', 'wild'] if wild else ['smooth']))))
  if draw(st.booleans()):  # a crowded, fully visible scene
    for part in ('log', 'sim'):
      for k in 'xy':
        sc[part][k] = sc[part][k] / np.float32(6)
      sc[part]['valid'][:] = True
  if draw(st.integers(0, 2)) == 0:
    lane(draw, sc)
  emptied(sc, draw(st.sampled_from(EMPTY)))
  part = draw(st.sampled_from([None, None, None, None, 'paths', 'paths', 'rg', 'tl']))
  if part:  # all of it far from the objects
    r, a = draw(st.sampled_from([45, 75, 95, 120, 160])), draw(st.sampled_from([0.0, 0.4, 0.8, 1.5, 2.3, -0.8, -2.0, 3.0]))
    for k, d in (('x', r * np.cos(a)), ('y', r * np.sin(a))):
      sc[part][k] = sc[part][k] + np.float32(d)
  kind = draw(st.sampled_from(sorted(CTRL)))
  dim = envs.DYNS[kind].dim
  src = gens.Src(draw, 2 * N * dim + N + 40)
  sc['timestep'] = draw(st.integers(0, T - 2))
  return dict(sc=sc, kind=kind, plan=draw(st.sampled_from(PLAN)),
              act=dict(data=src.sym((N, dim), 1.0), valid=src.bits((N, 1), 200)),
              sdc_act=dict(data=src.sym((3,), 1.0), valid=np.ones((1,), bool)))


@st.composite
def full_case(draw):
  """The same on a scene of realistic size."""
  sc = draw(gens.big(P=300, K=6, M=60, drift=draw(st.sampled_from([1.0, 3.0]))))
  n = sc['log']['x'].shape[0]
  kind = draw(st.sampled_from(['bicycle', 'delta_local']))
  dim = envs.DYNS[kind].dim
  src = gens.Src(draw, 8 * n * dim)
  return dict(sc=sc, kind=kind, plan='idm',
              act=dict(data=src.sym((n, dim), 1.0), valid=src.bits((n, 1), 200)),
              sdc_act=dict(data=src.sym((3,), 1.0), valid=np.ones((1,), bool)))


def outputs(c, sc=None, act=None, sdc_act=None, n=None):
  """NumPy tree of everything computed from one scene."""
  import jax
  n = n or c['sc']['log']['x'].shape[0]
  sc = c['sc'] if sc is None else sc
  s = gens.to_state(sc)
  out = dict(env=env_fn(c['kind'], n)(s, c['act'] if act is None else act),
             plan=plan_fn(c['plan'], n)(s, c['sdc_act'] if sdc_act is None else sdc_act), **scene_fn(n)(s))
  return jax.tree_util.tree_map(np.asarray, out)


def judged(c, out):
  """Which objects have defined poses after the step: (environment, planning).

  What a controlled object does on an invalid action is not specified."""
  bad = np.zeros(len(c['act']['valid']), bool)
  for k in ('idm', 'const', 'frozen'):
    o = out['agents'][k]
    bad |= (o['mask'] & ~o['on'])[:len(bad)]
  return c['act']['valid'][:, 0], ~bad if c['plan'] else ~bad | True


def copy(sc):
  return {k: ({f: np.array(v) for f, v in x.items()} if isinstance(x, dict) else x) for k, x in sc.items()}


# ------------------------------------------------------------- comparing -----
class Diff(Exception):
  pass


def same(a, b, what, where=None, tol=0.0, angle=False):
  """Raises Diff unless a equals b (within tol) wherever `where` holds."""
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    raise Diff(f'{what}: shape {a.shape} vs {b.shape}')
  if a.dtype.kind == 'f':
    x, y = a.astype(float), b.astype(float)
    with np.errstate(invalid='ignore', over='ignore'):
      d = ref.angdiff(x, y) if angle else np.abs(x - y)
      ok = (d <= tol * (1 + 0.02 * np.abs(y))) | (a == b) | (np.isnan(a) & np.isnan(b))
  else:
    ok = a == b
  if where is not None:
    ok = ok | ~np.broadcast_to(where, ok.shape)
  if not ok.all():
    i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
    raise Diff(f'{what} at {i}: {np.atleast_1d(a)[i]!r} vs {np.atleast_1d(b)[i]!r}')


def run(c, compare):
  """compare(case) raises Diff; it counts if three nudged scenes differ too."""
  try:
    compare(c)
    return
  except Diff as e:
    msg = str(e)
  for k in (1, 2, 3):
    try:
      compare(dict(c, sc=nudged(c['sc'], k)))
    except Diff:
      continue
    return
  raise Violation(msg)
