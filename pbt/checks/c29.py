"""C29: episodes last exactly as long as the log; truncation marks their end."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from harness import Registry, eq, require

R = Registry('C29', 'Random log lengths (1-12 steps), warm-up lengths, timesteps, '
             'batch shapes and arbitrary state contents; oracle: arithmetic on the '
             'timestep and the log length, and a step counter over whole episodes '
             'of the multi-agent, planning, Brax and dm_env interfaces. '
             'Non-trivial: the episode runs, or the flags are read on both sides '
             'of the end.', ['timesteps inside the log or up to two steps past it'])
N = 3


def make_env(kind, init):
  from waymax import env as E
  from waymax import config as C
  cfg = envs.config('SDC', True, init, N,
                    metrics=C.MetricsConfig(metrics_to_run=('log_divergence',)),
                    rewards=C.LinearCombinationRewardConfig(rewards={'log_divergence': 1.0}))
  dyn = envs.DYNS['bicycle'].make()
  if kind == 'planning':
    return E.PlanningAgentEnvironment(dyn, cfg)
  return E.BaseEnvironment(dyn, cfg)


def brax(kind, init):
  from waymax.env.wrappers import brax_wrapper
  e = make_env(kind, init)
  return brax_wrapper.BraxWrapper(e, e.dynamics, e.config)


BARE = ('metadata', 'modeled', 'sdc', 'log', 'sim', 'map', 'lights', 'timestamps')


def bare(sc, what):
  """Takes an ingredient away; none of them decides when an episode ends."""
  if what == 'metadata':
    sc['md']['is_valid'][:] = False
  elif what == 'modeled':
    for k in ('is_modeled', 'is_controlled', 'objects_of_interest'):
      if k in sc['md']:
        sc['md'][k][:] = False
  elif what == 'sdc':
    sc['md']['is_sdc'][:] = False
  elif what in ('log', 'sim'):
    sc[what]['valid'][:] = False
  elif what in ('map', 'lights'):
    sc['rg' if what == 'map' else 'tl']['valid'][:] = False
  elif what == 'timestamps':
    for part in ('log', 'sim'):
      sc[part]['timestamp_micros'][:] = -1


def stretched(sc, T, to):
  """The same scenario with a log of another length."""
  i = np.arange(to) * T // to
  for part in ('log', 'sim', 'tl'):
    sc[part] = {k: v[..., i] for k, v in sc[part].items()}
  return sc


@st.composite
def flags_case(draw):
  T = draw(st.integers(1, 12))
  shape = draw(st.sampled_from([(), (), (2,), (3,), (2, 2)]))
  n = int(np.prod(shape))
  scs = [draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free', mode='wild')) for _ in range(n)]
  for what in draw(st.lists(st.sampled_from(BARE), max_size=2)):
    for sc in scs:
      bare(sc, what)
  long = draw(st.sampled_from([0, 0, 0, 91, 92, 130, 200, 300]))
  if long:
    scs, T = [stretched(sc, T, long) for sc in scs], long
  end = T + draw(st.sampled_from([-1, -1, 2]))  # or stepped past the end
  start = draw(st.sampled_from([0, 0, max(T - 40, 0), max(T - 2, 0)]))
  if draw(st.booleans()):
    t = draw(st.integers(start, end))
    ts = np.full(shape, t, np.int32)
    scalar = draw(st.booleans())
  else:
    ts = np.asarray([draw(st.integers(start, end)) for _ in range(n)], np.int32).reshape(shape)
    scalar = shape == ()
  return dict(T=T, shape=list(shape), scs=scs, ts=ts, scalar=scalar,
              kind=draw(st.sampled_from(['base', 'planning'])),
              jit=False if long else draw(st.sampled_from([False, False, False, True])))


@R.law(flags_case(), quick=350, name='flags of a state')
def flags(c):
  import jax
  import jax.numpy as jnp
  shape, T = tuple(c['shape']), c['T']
  b = gens.stack_cases(c['scs'])
  s = gens.to_state(b, 0)
  s = jax.tree_util.tree_map(lambda x: x if x.ndim == 0 else x.reshape(shape + x.shape[1:]), s)
  ts = c['ts']
  t = ts.reshape(-1)[0] if c['scalar'] else ts
  s = s.replace(timestep=jnp.asarray(t, jnp.int32))
  e = make_env(c['kind'], 1)
  f = lambda s: (s.remaining_timesteps, s.is_done, e.truncation(s), e.termination(s))
  if c['jit']:
    f = jax.jit(f)
  rem, done, trunc, term = (np.asarray(x) for x in f(s))
  want = T - 1 - np.asarray(t)
  require(rem.shape == want.shape and (rem == want).all(), 'remaining_timesteps', rem, 'is not', want)
  require(done.dtype == bool and done.shape == want.shape and (done == (want < 1)).all(),
          'is_done', done, 'with', want, 'steps left')
  full = np.broadcast_to(want < 1, shape)
  require(trunc.dtype == bool and trunc.shape == shape and (trunc == full).all(), 'truncation', trunc,
          'with', want, 'steps left')
  require(term.dtype == bool and term.shape == shape and not term.any(), 'termination', term)
  return ['last step' if full.any() else 'running', c['kind']] + (['longer than 91 steps'] if T > 91 else [])


@st.composite
def episode_case(draw):
  T = draw(st.sampled_from([2, 3, 5, 8]))
  init = draw(st.integers(1, T))
  nb = draw(st.sampled_from([0, 0, 2]))
  scs = [draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free')) for _ in range(max(nb, 1))]
  return dict(T=T, init=init, nb=nb, scs=scs,
              kind=draw(st.sampled_from(['base', 'planning'])),
              wrap=draw(st.sampled_from(['env', 'env', 'brax'])),
              scale=draw(st.sampled_from([0.0, 1.0, 100.0])))


@R.law(episode_case(), quick=150, name='whole episodes')
def episodes(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes
  T, init, nb = c['T'], c['init'], c['nb']
  e = make_env(c['kind'], init)
  b = gens.stack_cases(c['scs'])
  if not nb:
    b = {k: (v if v is None else {f: x[0] for f, x in v.items()} if isinstance(v, dict) else v[0])
         for k, v in b.items()}
  bs = (nb,) if nb else ()
  s0 = gens.to_state(b, 0)
  shp = bs + ((N,) if c['kind'] == 'base' else ())
  act = datatypes.Action(data=jnp.full(shp + (2,), c['scale'], jnp.float32),
                         valid=jnp.ones(shp + (1,), bool))
  if c['wrap'] == 'brax':
    ts = brax(c['kind'], init).reset(s0)
    s = ts.state
    # The wrapper's step also computes metrics: compile once per shape.
    step = envs.cached(('c29b', c['kind'], T, nb), lambda: jax.jit(
        lambda x, a: brax(c['kind'], 1).step(x, a)))
  else:
    s, ts = e.reset(s0), None
    step = envs.cached(('c29', c['kind'], T, nb), lambda: jax.jit(make_env(c['kind'], 1).step))
  steps = 0
  for t in range(init - 1, T + 1):
    require((np.asarray(s.timestep) == t).all(), 'timestep after', steps, 'steps is', s.timestep)
    require((np.asarray(s.remaining_timesteps) == T - init - steps).all(), 'remaining', s.remaining_timesteps)
    last = t >= T - 1
    require((np.asarray(s.is_done) == last).all(), 'is_done', s.is_done, 'at timestep', t, 'of', T)
    tr = np.asarray(e.truncation(s))
    require(tr.shape == bs and (tr == last).all(), 'truncation', tr, 'at timestep', t, 'of', T)
    require(not np.asarray(e.termination(s)).any(), 'termination reported')
    if ts is not None:
      require((np.asarray(ts.done) == last).all() or not steps, 'TimeStep.done', ts.done, 'at', t, 'of', T)
      require((np.asarray(ts.discount) == 1).all(), 'discount of an episode that never terminates', ts.discount)
    if last:
      break
    if ts is not None:
      ts = step(ts, act)
      s = ts.state
    else:
      s = step(s, act)
    steps += 1
  eq(steps, T - init, 'episode length')
  return [c['kind'], c['wrap']] if steps else []
