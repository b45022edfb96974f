"""C21: the Brax adapter is a pure functional view of the wrapped environment."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from harness import Registry, Violation, close, eq, require, tree_close, tree_eq

R = Registry('C21', 'Random episodes over single- and multi-agent environments '
             'with state- and action-dependent observation, reward, metrics and '
             'termination, batched or not, jitted or eager, against the wrapped '
             'environment run by hand; branching re-steps from old timesteps. '
             'Non-trivial: at least one step.')
N, INIT = 3, 2
KINDS = (('multi', 'bicycle', False), ('single', 'delta_global', True),
         ('multi', 'state', True), ('multi', 'delta_local', False))


def make_env(kind):
  from waymax import config as C, env as E
  import jax.numpy as jnp
  agents, dyn, term = kind
  base = E.PlanningAgentEnvironment if agents == 'single' else E.BaseEnvironment

  class Env(base):

    def observe(self, state):
      cur = state.current_sim_trajectory
      return dict(xy=cur.xy[..., 0, :], t=state.timestep * 3)

    def reward(self, state, action):
      a = action.data.sum(-1) * 0.5 + action.valid[..., 0]
      x = state.current_sim_trajectory.x[..., 0]
      if agents == 'single':
        x = x.sum(-1)
      return jnp.asarray(a + x + state.timestep * 100.0, jnp.float32)

    def termination(self, state):
      if not term:
        return super().termination(state)
      return state.current_sim_trajectory.x[..., 0, 0] > 1.0

  cfg = envs.config('SDC', True, INIT, N, compute_reward=kind[1] != 'delta_local',
                    metrics=C.MetricsConfig(metrics_to_run=('log_divergence', 'offroad')))
  return Env(envs.DYNS[dyn].make(), cfg), cfg


def parts(kind):
  def make():
    import jax
    from waymax.env.wrappers import brax_wrapper
    e, cfg = make_env(kind)
    w = brax_wrapper.BraxWrapper(e, envs.DYNS[kind[1]].make(), cfg)
    inner = jax.jit(lambda s, a: (e.step(s, a), e.reward(s, a)))
    return e, w, jax.jit(e.reset), inner, jax.jit(e.metrics), jax.jit(w.reset), jax.jit(w.step)
  return envs.cached(('c21', kind), make)


@st.composite
def case(draw, eager=False):
  kind = draw(st.sampled_from(KINDS))
  nb = 0 if eager else draw(st.sampled_from([0, 0, 2]))
  T = 5
  scs = [draw(gens.scenario(N=N, T=T, P=4, L=1)) for _ in range(nb or 1)]
  if kind[2]:
    for s in scs:
      s['log']['x'][0] *= np.float32(0.15)
  lead = (nb,) if nb else ()
  shape = lead if kind[0] == 'single' else lead + (N,)
  d = envs.DYNS[kind[1]]
  acts = [draw(envs.actions(d.dim, shape, lim=d.spec)) for _ in range(1 if eager else 4)]
  return dict(kind=kind, sc=gens.stack_cases(scs) if nb else scs[0], b=nb, acts=acts,
              n=1 if eager else draw(st.integers(0, 4)), branch=draw(st.integers(0, 3)), eager=eager)


def check_metrics(got, exp, what):
  require(set(got) == set(exp), what, list(got))
  for k in exp:
    v = np.asarray(exp[k].valid)
    eq(np.asarray(got[k].valid), v, f'{what} {k} valid')
    close(np.where(v, got[k].value, 0), np.where(v, exp[k].value, 0), f'{what} {k}', 1e-2, 1e-4)


def snapshot(ts):
  import jax
  return [np.array(x) for x in jax.tree_util.tree_leaves(ts)]


def body(c):
  kind = tuple(c['kind'])
  e, w, ereset, inner, emetrics, jreset, jstep = parts(kind)
  if c['eager']:
    jreset, jstep = w.reset, w.step
  lead = (c['b'],) if c['b'] else ()
  labels = set()
  s0 = gens.to_state(c['sc'], 0)
  ts = jreset(s0)
  cur = ereset(s0)
  tree_close(ts.state, cur, 'reset state: ', 1e-4)
  tree_close(ts.observation, e.observe(cur), 'reset observation: ', 1e-4)
  rshape = lead + tuple(e.reward_spec().shape)
  eq(np.asarray(ts.reward), np.zeros(rshape, np.float32), 'reset reward')
  eq(np.asarray(ts.discount), np.ones(lead + tuple(e.discount_spec().shape), np.float32), 'reset discount')
  check_metrics(ts.metrics, emetrics(cur), 'reset metrics')
  x0 = np.asarray(cur.current_sim_trajectory.x)[..., 0, 0]
  if not kind[2] or (np.abs(x0 - 1) > 1e-3).all():
    first = x0 > 1.0 if kind[2] else np.zeros(lead, bool)
    eq(np.broadcast_to(np.asarray(ts.done), lead), first, 'done of the reset timestep')
    if np.any(first):
      labels.add('terminal reset')
  hist = [(ts, cur, snapshot(ts))]
  todo = list(range(c['n']))
  for i in todo:
    ts, cur, _ = hist[-1]
    a = envs.to_action(c['acts'][i])
    new = jstep(ts, a)
    nxt, rew = inner(cur, a)
    check_step(e, emetrics, new, cur, nxt, rew, kind, lead, labels)
    hist.append((new, nxt, snapshot(new)))
    labels.add('step')
  for ts, _, snap in hist:
    now = snapshot(ts)
    require(len(now) == len(snap) and all(np.array_equal(p, q, equal_nan=p.dtype.kind == 'f')
                                          for p, q in zip(now, snap)), 'a timestep was modified')
  if c['n']:  # stepping an old timestep again gives the same result
    j = c['branch'] % c['n']
    again = jstep(hist[j][0], envs.to_action(c['acts'][j]))
    tree_eq(again, hist[j + 1][0], 'replayed step: ')
  return labels


def check_step(e, emetrics, new, cur, nxt, rew, kind, lead, labels):
  tree_close(new.state, nxt, 'state: ', 1e-3)
  tree_close(new.observation, e.observe(nxt), 'observation: ', 1e-3)
  close(np.asarray(new.reward), np.asarray(rew), 'reward', 1e-2, 1e-4)
  check_metrics(new.metrics, emetrics(cur), 'metrics')
  x0 = np.asarray(nxt.current_sim_trajectory.x)[..., 0, 0]
  term = x0 > 1.0 if kind[2] else np.zeros(lead, bool)
  if kind[2] and (np.abs(x0 - 1) < 1e-3).any():
    return
  T = np.asarray(nxt.sim_trajectory.x).shape[-1]
  over = int(np.asarray(nxt.timestep)) >= T - 1
  eq(np.broadcast_to(np.asarray(new.done), lead), term | np.full(lead, over), 'done')
  close(np.broadcast_to(np.asarray(new.discount), lead), (~term).astype(float), 'discount', 0)
  require(np.asarray(new.done).shape == lead and np.asarray(new.discount).shape == lead,
          'shape of done or discount', np.asarray(new.done).shape)
  if np.any(term):
    labels.add('terminated')
  if over:
    labels.add('truncated')


# c['n'] stays within the log: INIT - 1 + n <= T - 1.
@R.law(case(), quick=160, name='episode')
def episode(c):
  c = dict(c, n=min(c['n'], 3))
  return body(c)


@R.law(case(eager=True), quick=15, name='episode (eager)')
def episode_eager(c):
  return body(c)
