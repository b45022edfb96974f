"""C19: a rollout is exactly the recorded history of stepping the environment."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from harness import Registry, Violation, close, eq, require, tree_close, tree_eq

R = Registry('C19', 'Random scenes, keys, numbers of steps and actor parameters '
             'with an actor that writes its own state, parameters and random key '
             'into the action, and an environment whose observation, reward and '
             'metrics depend on state, timestep and action; every recorded entry '
             'is recomputed from the recorded predecessor. Non-trivial: at least '
             'two steps, or a stochastic actor.',
             ['float leaves recomputed by a differently compiled program are '
              'compared up to float32 rounding',
              'rollouts of zero steps are not considered'])
N, T = 3, 7
METRICS = ('log_divergence', 'offroad', 'kinematic_infeasibility')


def actor():
  """Stateful, stochastic, parametric; everything it is given shows up in the
  action of object 0 (key halves), 1 (own state, timestep) and 2 (parameters)."""
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.agents import actor_core

  def halves(rng):
    k = jnp.asarray(rng, jnp.uint32).reshape(-1)[:2]
    return [(k[0] >> 16).astype(jnp.float32), (k[0] & 0xffff).astype(jnp.float32),
            (k[1] >> 16).astype(jnp.float32), (k[1] & 0xffff).astype(jnp.float32)]

  def init(rng, state):
    return dict(n=jnp.zeros((), jnp.float32), t0=jnp.asarray(state.timestep, jnp.float32),
                h=jnp.stack(halves(rng)))

  def select(params, state, actor_state, rng):
    row = jnp.stack([jnp.stack(halves(rng) + [jnp.zeros(())]),
                     jnp.stack([actor_state['n'], actor_state['t0'],
                                jnp.asarray(state.timestep, jnp.float32),
                                actor_state['h'][0], actor_state['h'][1]]),
                     params['p']])
    data = jnp.broadcast_to(row, state.shape + row.shape)
    valid = jnp.ones(state.shape + (N, 1), bool) & (params['p'][0] > -50)
    return actor_core.WaymaxActorOutput(
        actor_state=dict(n=actor_state['n'] + params['inc'], t0=actor_state['t0'],
                         h=actor_state['h']),
        action=datatypes.Action(data=data, valid=valid),
        is_controlled=state.object_metadata.is_sdc)
  return actor_core.actor_core_factory(init, select, 'recorder')


def env(ctrl, inj, init, planning=False):
  from waymax import config as C, datatypes, env as E
  base = E.PlanningAgentEnvironment if planning else E.BaseEnvironment

  class Env(base):

    def observe(self, state):
      cur = state.current_sim_trajectory
      return datatypes.MaskedArray(value=cur.x[..., 0] * 2.0 + state.timestep * 10.0,
                                   valid=cur.valid[..., 0])

    def reward(self, state, action):
      r = super().reward(state, action)
      a = action.data.sum(-1) * 1e-3 + action.valid[..., 0] * 2.0
      return r + a + state.current_sim_trajectory.yaw[..., 0].sum(-1, keepdims=not planning)
  return Env(envs.DYNS['state'].make(), envs.config(
      ctrl, inj, init, N, metrics=C.MetricsConfig(metrics_to_run=METRICS),
      rewards=C.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0})))


@st.composite
def case(draw):
  nb = draw(st.sampled_from([0, 0, 0, 2]))
  scs = [draw(gens.scenario(N=N, T=T, P=4, L=1)) for _ in range(nb or 1)]
  for s in scs:
    if draw(st.booleans()):
      s['log']['valid'][:] = True
  init = draw(st.sampled_from([1, 3]))
  src = gens.Src(draw, 60)
  return dict(sc=gens.stack_cases(scs) if nb else scs[0], b=nb, init=init,
              ctrl=draw(st.sampled_from(['SDC', 'VALID'])), inj=init == 1,
              n=draw(st.sampled_from([1, 2, 4])), key=draw(st.integers(0, 2**31 - 1)),
              p=src.sym((5,), 30.0), inc=int(draw(st.integers(1, 9))))


def fns(c):
  import importlib
  ro = importlib.import_module("waymax.env.rollout")

  def make():
    import jax
    e = env(c['ctrl'], c['inj'], c['init'])
    a = actor()
    roll = jax.jit(lambda s, p, k: ro.rollout(s, a, e, k, rollout_num_steps=c['n'],
                                              actor_params=p))
    return roll
  def make1():
    import jax
    e = env(c['ctrl'], c['inj'], c['init'])
    one = jax.jit(lambda s, act: (e.step(s, act), e.observe(s), e.metrics(s), e.reward(s, act)))
    return one, jax.jit(e.reset)
  k = (c['ctrl'], c['inj'], c['init'])
  return (envs.cached(('c19', k, c['n']), make),) + envs.cached(('c191', k), make1)


def index(tree, i):
  import jax
  return jax.tree_util.tree_map(lambda x: x[i], tree)


def check_output(out, one, reset_state, n, sc_shape):
  """Every entry of the output follows from the recorded predecessor."""
  require(tuple(out.shape) == (n + 1,) + sc_shape, 'rollout shape', out.shape)
  import jax
  for leaf in jax.tree_util.tree_leaves(out):
    require(leaf.shape[0] == n + 1, 'leading axis', leaf.shape)
  tree_eq(index(out.state, 0), reset_state, 'first state: ')
  for i in range(n + 1):
    s, a = index(out.state, i), index(out.action, i)
    nxt, obs, met, rew = one(s, a)
    if i < n:
      tree_close(index(out.state, i + 1), nxt, f'state {i + 1}: ', 1e-3, 1e-5)
      eq(np.asarray(index(out.state, i + 1).timestep), np.asarray(nxt.timestep), 'timestep')
    else:
      for leaf in jax.tree_util.tree_leaves(a):
        require(not np.asarray(leaf).any(), 'last action is not zero', leaf)
    tree_close(index(out.observation, i), obs, f'observation {i}: ', 1e-3, 1e-5)
    require(set(out.metrics) == set(met), 'metric names')
    for k in met:
      eq(np.asarray(out.metrics[k].valid)[i], np.asarray(met[k].valid), f'metric {k} valid {i}')
      if k != 'kinematic_infeasibility':  # a threshold; decided by C15
        v = np.asarray(met[k].valid)
        close(np.where(v, np.asarray(out.metrics[k].value)[i], 0), np.where(v, met[k].value, 0),
              f'metric {k} at {i}', 1e-2, 1e-4)
    r = np.asarray(rew)
    close(np.asarray(out.reward)[i], r, f'reward {i}', 1e-2 + 1e-4 * np.abs(r), 1e-4)


@R.law(case(), quick=170, name='rollout')
def law_rollout(c):
  import jax
  import jax.numpy as jnp
  roll, one, reset = fns(c)
  state = gens.to_state(c['sc'])
  p = dict(p=jnp.asarray(c['p']), inc=jnp.asarray(c['inc'], jnp.float32))
  key = jax.random.PRNGKey(c['key'])
  n = c['n']
  out = roll(state, p, key)
  check_output(out, one, reset(state), n, (c['b'],) if c['b'] else ())
  data = np.asarray(out.action.data)
  if c['b']:
    data = data[:, 0]
  seen = set()
  for i in range(n):
    # Key of this step is fresh, state and parameters are threaded in order.
    k = tuple(data[i, 0, :4].tolist())
    require(k not in seen, 'the actor saw the same random key twice', k)
    seen.add(k)
    require(data[i, 1, 0] == i * c['inc'], 'actor state at step', i, data[i, 1])
    require(data[i, 1, 1] == c['init'] - 1, 'actor initialised from timestep', data[i, 1])
    require(data[i, 1, 2] == c['init'] - 1 + i, 'actor saw timestep', data[i, 1])
    eq(data[i, 2], c['p'], 'actor parameters')
    require((data[i, 1, 3:] != data[i, 0, :2]).any(), 'init and step share a random key')
    require(np.asarray(out.action.valid)[i].all(), 'action validity')
  again = roll(state, p, key)
  tree_eq(again, out, 'same key, different rollout: ')
  other = roll(state, p, jax.random.PRNGKey(c['key'] + 1))
  d2 = np.asarray(other.action.data)
  d2 = d2[:, 0] if c['b'] else d2
  require((d2[0, 0] != data[0, 0]).any(), 'rollout ignores the random key')
  return ['multi-step'] if n > 1 else []


@st.composite
def expert_case(draw):
  sc = draw(gens.scenario(N=N, T=T, P=4, L=1, mode=draw(st.sampled_from(['smooth', 'wild']))))
  sc['log']['valid'][int(np.argmax(sc['md']['is_sdc']))] = True
  return dict(sc=sc, planning=draw(st.booleans()), dyn=draw(st.sampled_from(['state', 'delta_global'])),
              n=draw(st.sampled_from([1, 4])), init=draw(st.sampled_from([1, 3])))


@R.law(expert_case(), quick=80, name='expert rollout replays the log')
def expert(c):
  from waymax import env as E
  import importlib
  ro = importlib.import_module("waymax.env.rollout")

  def make():
    import jax
    d = envs.DYNS[c['dyn']].make()
    cls = E.PlanningAgentEnvironment if c['planning'] else E.BaseEnvironment
    e = cls(d, envs.config('SDC', True, c['init'], N, compute_reward=False))
    dm = e.dynamics if c['planning'] else d
    return jax.jit(lambda s: ro.rollout_log_by_expert_sdc(s, e, dm, c['n']))
  out = envs.cached(('c19e', c['planning'], c['dyn'], c['n'], c['init']), make)(gens.to_state(c['sc']))
  log = c['sc']['log']
  i = int(np.argmax(c['sc']['md']['is_sdc']))
  step = np.abs(np.stack([np.diff(log[k][i]) for k in 'xy'])).max(0)
  last = c['init'] - 1
  exact = True
  for j in range(c['n'] + 1):
    t = c['init'] - 1 + j
    require(int(np.asarray(out.state.timestep)[j]) == t, 'timestep')
    if j and c['dyn'] == 'delta_global' and not step[t - 1] < 5.9:
      exact = False
    got = gens.traj_np(index(out.state, j).sim_trajectory)
    for o in range(N):
      if o != i or exact:
        tol = 0 if o != i or c['dyn'] == 'state' else 1e-4 * (1 + j)
        for k in 'xy':
          close(got[k][o, t], log[k][o, t], f'{k} of object {o} after {j} steps', tol, 0)
    last = t
  return ['exact'] if exact else ['clipped']
