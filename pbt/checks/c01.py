"""C01: a step writes exactly one new time index and nothing else."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
from harness import Registry, eq, require, tree_eq

R = Registry('C01', 'Random scenario (validity patterns, arbitrary simulated '
             'history, any timestep), random actions, every dynamics model and '
             'control configuration; non-trivial: some object is valid at the '
             'stepped timestep.')


def check_frame(pre, post, t, sc, what):
  """pre/post: SimulatorStates (numpy-convertible); t int index."""
  T = sc['log']['x'].shape[-1]
  a, b = gens.traj_np(pre.sim_trajectory), gens.traj_np(post.sim_trajectory)
  keep = np.arange(T) != t + 1
  for k in envs.TRAJ_FIELDS:
    eq(b[k][..., keep], a[k][..., keep], f'{what}: sim {k} outside index t+1')
    if k in ('z', 'length', 'width', 'height'):
      eq(b[k][..., t + 1], a[k][..., t], f'{what}: {k} carried over to t+1')
  eq(b['timestamp_micros'][..., t + 1], sc['log']['timestamp_micros'][..., t + 1],
     f'{what}: timestamp at t+1 comes from the log')
  eq(np.asarray(post.timestep), np.asarray(pre.timestep) + 1, f'{what}: timestep')
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata',
               'roadgraph_points', 'sdc_paths'):
    tree_eq(getattr(post, part), getattr(pre, part), f'{what}: {part}')


def snap(state):
  import jax
  return jax.tree_util.tree_map(np.array, state)


@st.composite
def one_step(draw, shapes=((4, 7), (1, 3)), batch=None):
  N, T = draw(st.sampled_from(shapes))
  dyn = draw(st.sampled_from(sorted(envs.DYNS)))
  ctrl = draw(st.sampled_from(envs.CTRLS))
  inj = draw(st.booleans())
  init = draw(st.sampled_from([1, 2]))
  t = draw(st.integers(0, T - 2))
  B = batch or 1
  scs = []
  for _ in range(B):
    sc = draw(gens.scenario(N=N, T=T, P=4, L=2, K=draw(st.just(2)), M=3, sim='free'))
    sc['timestep'] = t
    scs.append(sc)
  sc = gens.stack_cases(scs) if batch else scs[0]
  shape = ((B, N) if batch else (N,))
  return dict(sc=sc, dyn=dyn, ctrl=ctrl, inj=inj, init=init, t=t,
              act=draw(envs.actions(envs.DYNS[dyn].dim, shape)))


def run_one(c, eager):
  sc = c['sc']
  N = sc['log']['x'].shape[-2]
  state = gens.to_state(sc, c['t'])  # one shared timestep, also for batches
  before = snap(state)
  if eager:
    post = envs.env(c['dyn'], c['ctrl'], c['inj'], c['init'], N).step(
        state, envs.to_action(c['act']))
  else:
    post = envs.step(c['dyn'], c['ctrl'], c['inj'], c['init'], N)(
        state, envs.to_action(c['act']))
  tree_eq(snap(state), before, 'input state mutated')
  check_frame(before, post, c['t'], sc, 'step')
  v = np.asarray(sc['sim']['valid'])[..., c['t']]
  return [c['dyn']] if v.any() else []


@R.law(one_step(), quick=500)
def frame_jit(c):
  return run_one(c, eager=False)


@R.law(one_step(shapes=((4, 7),)), quick=120)
def frame_eager(c):
  return run_one(c, eager=True)


@R.law(one_step(shapes=((3, 5),), batch=2), quick=120)
def frame_batched(c):
  return run_one(c, eager=False)


@st.composite
def history(draw):
  N, T = 3, 7
  dyn = draw(st.sampled_from(['bicycle', 'delta_local', 'state']))
  ctrl = draw(st.sampled_from(envs.CTRLS))
  inj = draw(st.booleans())
  init = draw(st.sampled_from([1, 3]))
  sc = draw(gens.scenario(N=N, T=T, P=4, L=2, K=2, M=3))
  n = draw(st.integers(1, T - init))
  return dict(sc=sc, dyn=dyn, ctrl=ctrl, inj=inj, init=init,
              acts=[draw(envs.actions(envs.DYNS[dyn].dim, (N,))) for _ in range(n)])


@R.law(history(), quick=200, rule='whole histories from reset')
def frame_history(c):
  sc = c['sc']
  state = envs.reset(c['init'], 3)(gens.to_state(sc))
  f = envs.step(c['dyn'], c['ctrl'], c['inj'], c['init'], 3, ('hist',))
  states = [snap(state)]
  t = c['init'] - 1
  for i, a in enumerate(c['acts']):
    state = f(state, envs.to_action(a))
    s = snap(state)
    check_frame(states[-1], s, t, sc, f'step {i}')
    states.append(s)
    t += 1
  # Prefix immutability over the entire history.
  last = gens.traj_np(states[-1].sim_trajectory)
  for i, s in enumerate(states):
    cur = gens.traj_np(s.sim_trajectory)
    upto = c['init'] + i
    for k in envs.TRAJ_FIELDS:
      eq(last[k][:, :upto], cur[k][:, :upto], f'history rewritten: {k} before {upto}')
  return [f'len{len(c["acts"])}'] if sc['log']['valid'].any() else []


def planning_env(agents, init):
  from waymax import agents as A, env as E
  actors = []
  if agents:
    actors = [A.create_constant_speed_actor(
        dynamics_model=envs.DYNS['state'].make(), speed=3.0,
        is_controlled_func=lambda s: ~s.object_metadata.is_sdc)]
  return E.PlanningAgentEnvironment(
      envs.DYNS['bicycle'].make(), envs.config('SDC', True, init, 3),
      sim_agent_actors=actors, sim_agent_params=[None] * len(actors))


@st.composite
def planning(draw):
  sc = draw(gens.scenario(N=3, T=6, P=4, L=2, K=2, M=3))
  init = draw(st.sampled_from([1, 2]))
  n = draw(st.integers(1, 6 - init))
  return dict(sc=sc, init=init, agents=draw(st.booleans()),
              acts=[draw(envs.actions(2, ())) for _ in range(n)])


@R.law(planning(), quick=80, rule='planning-agent environment histories')
def frame_planning(c):
  import jax
  env = envs.cached(('c01p', c['agents'], c['init']),
                    lambda: planning_env(c['agents'], c['init']))
  f = envs.cached(('c01pj', c['agents'], c['init']), lambda: jax.jit(env.step))
  state = env.reset(gens.to_state(c['sc']))
  t = c['init'] - 1
  for a in c['acts']:
    before = snap(state)
    state = f(state, envs.to_action(a))
    check_frame(before, state, t, c['sc'], 'planning step')
    t += 1
  return ['agents' if c['agents'] else 'none']


@st.composite
def upd(draw):
  N, T = 4, 6
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
  src = gens.Src(draw, 2 * 5 * N + 3 * N)
  return dict(sc=sc, t=draw(st.integers(0, T - 2)), u=src.sym((5, N, 1), 20),
              uvalid=src.bits((N, 1)), ctrl=src.bits((N,)), inj=draw(st.booleans()))


@R.law(upd(), quick=150, rule='direct application of an arbitrary update')
def frame_apply_update(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.dynamics import abstract_dynamics as ad
  sc = c['sc']
  u = datatypes.TrajectoryUpdate(**{k: jnp.asarray(c['u'][i]) for i, k in enumerate(
      ('x', 'y', 'yaw', 'vel_x', 'vel_y'))}, valid=jnp.asarray(c['uvalid']))
  f = envs.cached(('c01u', c['inj']), lambda: jax.jit(
      lambda u, s, l, m, t: ad.apply_trajectory_update_to_state(
          u, s, l, m, t, c['inj'])))
  sim, log = gens.to_traj(sc['sim']), gens.to_traj(sc['log'])
  out = gens.traj_np(f(u, sim, log, jnp.asarray(c['ctrl']), jnp.asarray(c['t'])))
  keep = np.arange(6) != c['t'] + 1
  for k in envs.TRAJ_FIELDS:
    eq(out[k][:, keep], sc['sim'][k][:, keep], f'apply update: {k} elsewhere')
  for i, k in enumerate(('x', 'y', 'yaw', 'vel_x', 'vel_y')):
    # Controlled objects with a valid update take it; others follow the log.
    sel = c['ctrl'] & c['uvalid'][:, 0] & sc['sim']['valid'][:, c['t']]
    eq(out[k][sel, c['t'] + 1], c['u'][i][sel, 0], f'apply update: {k} controlled')
    sel = ~c['ctrl']
    eq(out[k][sel, c['t'] + 1], sc['log'][k][sel, c['t'] + 1],
       f'apply update: {k} not controlled')
  return ['inj' if c['inj'] else 'noinj']


@st.composite
def full_case(draw):
  sc = draw(gens.big())
  dyn = draw(st.sampled_from(['bicycle', 'delta_local', 'state']))
  return dict(sc=sc, dyn=dyn, ctrl=draw(st.sampled_from(envs.CTRLS)), inj=draw(st.booleans()), init=11,
              t=sc['timestep'], act=draw(envs.actions(envs.DYNS[dyn].dim, (128,))))


@R.law(full_case(), quick=40, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  return run_one(c, eager=False)


def make_own():
  """Steps of states that are each at their own timestep."""
  from waymax import datatypes, env as E
  e = E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config('VALID', False, 2, batching.N))

  def f(s, a):
    return e.step(s, datatypes.Action(data=a['data'], valid=a['valid']))
  return f


batching.own_timesteps(R, make_own, envs.DYNS['bicycle'].dim)
