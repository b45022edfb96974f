"""C04: reset reproduces the logged warm-up exactly and nothing of the future."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
from harness import Registry, eq, require, tree_eq, Violation, from_repo

R = Registry('C04', 'Random state (arbitrary simulated trajectory and timestep, '
             'batched or not), every warm-up length; oracle: log prefix and '
             'placeholder suffix; non-trivial: log has data in and after warm-up.')


@st.composite
def case(draw, batch=None, N=3, T=6):
  scs = [draw(gens.scenario(N=N, T=T, P=3, L=2, K=2, M=3, sim='free'))
         for _ in range(batch or 1)]
  t = draw(st.integers(0, T - 1))
  for s in scs:
    s['timestep'] = t
  return dict(sc=gens.stack_cases(scs) if batch else scs[0], t=t,
              init=draw(st.integers(1, T)),
              batched_t=draw(st.booleans()),
              n=draw(st.integers(0, 2)),
              acts=draw(envs.actions(2, (2, batch or 1, N))))


def check_reset(sc, out, init, what='reset'):
  T = sc['log']['x'].shape[-1]
  sim = gens.traj_np(out.sim_trajectory)
  ts = np.asarray(out.timestep)
  eq(ts, np.full(ts.shape, init - 1), f'{what}: timestep')
  for k in envs.TRAJ_FIELDS:
    eq(sim[k][..., :init], sc['log'][k][..., :init], f'{what}: warm-up {k}')
    rest = sim[k][..., init:]
    fill = np.zeros_like(rest) if k == 'valid' else np.full_like(rest, -1)
    eq(rest, fill, f'{what}: {k} after warm-up must be the placeholder')
  tree_eq(out.log_trajectory, gens.to_traj(sc['log']), f'{what}: log')
  tree_eq(out.object_metadata, gens.to_md(sc['md']), f'{what}: metadata')
  tree_eq(out.roadgraph_points, gens.to_rg(sc['rg']), f'{what}: roadgraph')
  tree_eq(out.log_traffic_light, gens.to_tl(sc['tl']), f'{what}: lights')
  if sc.get('paths'):
    tree_eq(out.sdc_paths, gens.to_paths(sc['paths']), f'{what}: paths')


def nontrivial(c):
  v = c['sc']['log']['valid']
  i = c['init']
  return ['ok'] if v[..., :i].any() and v[..., i:].any() else []


@R.law(case(), quick=250)
def reset_base(c):
  N = c['sc']['log']['x'].shape[-2]
  st_ = gens.to_state(c['sc'], c['t'])
  check_reset(c['sc'], envs.env('bicycle', init=c['init'], N=N).reset(st_), c['init'])
  check_reset(c['sc'], envs.reset(c['init'], N)(st_), c['init'], 'jitted reset')
  return nontrivial(c)


@R.law(case(batch=2), quick=60)
def reset_batched(c):
  N = c['sc']['log']['x'].shape[-2]
  st_ = gens.to_state(c['sc'], None if c['batched_t'] else c['t'])
  out = envs.env('bicycle', init=c['init'], N=N).reset(st_)
  check_reset(c['sc'], out, c['init'], 'batched reset')
  return nontrivial(c)


@R.law(case(), quick=60, rule='reset of an advanced state equals reset')
def reset_after_steps(c):
  sc = c['sc']
  N, T = sc['log']['x'].shape
  init = min(c['init'], T - 1)
  env = envs.env('bicycle', init=init, N=N)
  state = env.reset(gens.to_state(sc, 0))
  f = envs.step('bicycle', 'SDC', True, init, N)
  steps = min(c['n'], T - init)
  for i in range(steps):
    state = f(state, envs.to_action({k: v[i, 0] for k, v in c['acts'].items()}))
  check_reset(sc, env.reset(state), init, f'reset after {steps} steps')
  return ['stepped'] if steps else []


def planning(init, N, agents):
  from waymax import env as E, agents as A
  actors = [A.create_expert_actor(dynamics_model=envs.DYNS['state'].make())] if agents else []
  return E.PlanningAgentEnvironment(
      envs.DYNS['bicycle'].make(), envs.config('SDC', True, init, N),
      sim_agent_actors=actors, sim_agent_params=[None] * len(actors))


@R.law(case(), quick=100)
def reset_planning(c):
  N = c['sc']['log']['x'].shape[-2]
  ag = c['batched_t']
  env = envs.cached(('c04p', c['init'], N, ag), lambda: planning(c['init'], N, ag))
  out = env.reset(gens.to_state(c['sc'], c['t']))
  check_reset(c['sc'], out, c['init'], 'planning reset')
  require(len(out.sim_agent_actor_states) == (1 if ag else 0), 'one actor state per agent')
  again = env.reset(out)
  check_reset(c['sc'], again, c['init'], 'planning reset twice')
  return nontrivial(c)


@st.composite
def mismatch(draw):
  N = draw(st.integers(1, 4))
  M = draw(st.integers(1, 5))
  return dict(sc=draw(gens.scenario(N=N, T=4, P=2, L=1)), M=M,
              planning=draw(st.booleans()))


@R.law(mismatch(), quick=60, rule='object count against configuration')
def count_mismatch_rejected(c):
  N = c['sc']['log']['x'].shape[-2]
  env = (planning(2, c['M'], False) if c['planning'] else
         envs.env('bicycle', init=2, N=c['M']))
  try:
    out = env.reset(gens.to_state(c['sc']))
  except Exception as e:
    if N == c['M']:
      raise
    return ['rejected']
  require(N == c['M'], f'reset accepted {N} objects with max_num_objects={c["M"]}')
  check_reset(c['sc'], out, 2)
  return []


@st.composite
def bylog(draw):
  T = 6
  sc = draw(gens.scenario(N=3, T=T, P=2, L=1, sim='free'))
  t = draw(st.integers(-1, T - 2))
  return dict(sc=sc, t=t, n=draw(st.integers(1, T - 1 - t)))


@R.law(bylog(), quick=100, rule='update_state_by_log from any timestep')
def update_by_log(c):
  from waymax import datatypes
  sc = c['sc']
  out = datatypes.update_state_by_log(gens.to_state(sc, c['t']), c['n'])
  lo, hi = c['t'] + 1, c['t'] + 1 + c['n']
  eq(np.asarray(out.timestep), np.asarray(c['t'] + c['n']), 'timestep')
  sim = gens.traj_np(out.sim_trajectory)
  for k in envs.TRAJ_FIELDS:
    want = sc['sim'][k].copy()
    want[:, lo:hi] = sc['log'][k][:, lo:hi]
    eq(sim[k], want, f'update_state_by_log: {k}')
  return ['ok']


@st.composite
def full_case(draw):
  sc = draw(gens.big())
  return dict(sc=sc, t=sc['timestep'], init=draw(st.sampled_from([1, 10, 11, 91])))


@R.law(full_case(), quick=40, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  check_reset(c['sc'], envs.reset(c['init'], 128)(gens.to_state(c['sc'], c['t'])), c['init'])
  return nontrivial(c)


def make_own():
  """Resets of states that are each at their own timestep."""
  from waymax import env as E
  envs_ = {i: E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config('VALID', False, i, batching.N)) for i in (1, 3)}
  return lambda s, _: {i: e.reset(s) for i, e in envs_.items()}


batching.own_timesteps(R, make_own)
