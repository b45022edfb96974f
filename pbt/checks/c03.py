"""C03: objects appear and disappear by the documented validity rules only."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, eq, require

R = Registry('C03', 'Random logged validity patterns (appear, vanish, gaps, '
             'random) and control masks over whole episodes; oracle: boolean '
             'validity automaton; non-trivial: some object changes validity in '
             'the log.')


@st.composite
def hist(draw, dyns=('bicycle', 'delta_global', 'state', 'delta_local')):
  N, T = draw(st.sampled_from([(5, 8), (2, 5)]))
  dyn = draw(st.sampled_from(list(dyns)))
  init = draw(st.sampled_from([1, 3]))
  n = draw(st.integers(1, T - init))
  acts = [draw(envs.actions(envs.DYNS[dyn].dim, (N,))) for _ in range(n)]
  for a in acts:
    a['valid'][:] = True
  return dict(sc=draw(gens.scenario(N=N, T=T, P=2, L=1)), dyn=dyn, init=init,
              ctrl=draw(st.sampled_from(envs.CTRLS)), inj=draw(st.booleans()),
              acts=acts)


@R.law(hist(), quick=450)
def validity_automaton(c):
  sc = c['sc']
  N, T = sc['log']['x'].shape
  state = envs.reset(c['init'], N)(gens.to_state(sc))
  f = envs.step(c['dyn'], c['ctrl'], c['inj'], c['init'], N)
  model = np.zeros((N, T), bool)
  model[:, :c['init']] = sc['log']['valid'][:, :c['init']]
  eq(np.asarray(state.sim_trajectory.valid), model, 'validity after reset')
  ctrl = ref.control_mask(sc, c['ctrl'], c['inj'], c['init'], model)
  t = c['init'] - 1
  for i, a in enumerate(c['acts']):
    state = f(state, envs.to_action(a))
    model[:, t + 1] = ref.next_valid(model[:, t], sc['log']['valid'][:, t + 1],
                                     ctrl, c['inj'])
    eq(np.asarray(state.sim_trajectory.valid), model,
       f'validity after step {i} (controlled={ctrl.tolist()})')
    t += 1
  v = sc['log']['valid']
  lab = []
  if (v[:, 1:] & ~v[:, :-1]).any():
    lab.append('appears')
  if (~v[:, 1:] & v[:, :-1]).any():
    lab.append('vanishes')
  return lab


@st.composite
def one(draw, batch=None):
  N, T = 4, 5
  dyn = draw(st.sampled_from(['bicycle', 'state', 'delta_local']))
  t = draw(st.integers(0, T - 2))
  scs = [draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free')) for _ in range(batch or 1)]
  sc = gens.stack_cases(scs) if batch else scs[0]
  shape = (batch, N) if batch else (N,)
  act = draw(envs.actions(envs.DYNS[dyn].dim, shape))
  act['valid'][:] = True
  src = gens.Src(draw, 2 * N * (batch or 1))
  return dict(sc=sc, dyn=dyn, t=t, act=act, ctrl=src.bits(shape),
              inj=draw(st.booleans()))


def forward(c):
  import jax
  import jax.numpy as jnp
  d = envs.DYNS[c['dyn']]
  m = envs.cached(('c03', c['dyn']), d.make)
  f = envs.cached(('c03f', c['dyn'], c['inj']), lambda: jax.jit(
      lambda a, s, l, k, t: m.forward(action=a, trajectory=s,
                                      reference_trajectory=l, is_controlled=k,
                                      timestep=t, allow_object_injection=c['inj'])))
  sc = c['sc']
  out = f(envs.to_action(c['act']), gens.to_traj(sc['sim']), gens.to_traj(sc['log']),
          jnp.asarray(c['ctrl']), jnp.asarray(c['t']))
  t = c['t']
  want = ref.next_valid(sc['sim']['valid'][..., t], sc['log']['valid'][..., t + 1],
                        c['ctrl'], c['inj'])
  eq(np.asarray(out.valid)[..., t + 1], want, 'validity after forward()')
  return ['inj' if c['inj'] else 'noinj']


@R.law(one(), quick=250, rule='forward() with arbitrary masks')
def forward_validity(c):
  return forward(c)


@R.law(one(batch=2), quick=80, rule='batched forward()')
def forward_validity_batched(c):
  return forward(c)


@R.law(one(), quick=40, rule='injection defaults to off in forward()')
def forward_default_no_injection(c):
  import jax.numpy as jnp
  m = envs.cached(('c03', c['dyn']), envs.DYNS[c['dyn']].make)
  sc, t = c['sc'], c['t']
  out = m.forward(action=envs.to_action(c['act']), trajectory=gens.to_traj(sc['sim']),
                  reference_trajectory=gens.to_traj(sc['log']),
                  is_controlled=jnp.asarray(c['ctrl']), timestep=t)
  want = ref.next_valid(sc['sim']['valid'][..., t], sc['log']['valid'][..., t + 1],
                        c['ctrl'], False)
  eq(np.asarray(out.valid)[..., t + 1], want, 'validity after forward() default')
  return ['default']


@R.law(hist(dyns=('bicycle',)), quick=120,
       rule='planning-agent environment: the SDC is the controlled object and '
            'validity follows the same automaton without injection')
def planning_validity(c):
  import jax
  from waymax import env as E
  sc = c['sc']
  N, T = sc['log']['x'].shape
  inj = c['inj']
  env = envs.cached(('c03p', N, c['init'], inj), lambda: E.PlanningAgentEnvironment(
      envs.DYNS['bicycle'].make(), envs.config('SDC', inj, c['init'], N)))
  f = envs.cached(('c03pj', N, c['init'], inj), lambda: jax.jit(env.step))
  sdc = int(np.argmax(sc['md']['is_sdc']))
  state = env.reset(gens.to_state(sc))
  model = np.zeros((N, T), bool)
  model[:, :c['init']] = sc['log']['valid'][:, :c['init']]
  t = c['init'] - 1
  for i, a in enumerate(c['acts']):
    state = f(state, envs.to_action({k: v[sdc] for k, v in a.items()}))
    model[:, t + 1] = ref.next_valid(model[:, t], sc['log']['valid'][:, t + 1],
                                     sc['md']['is_sdc'], inj)
    eq(np.asarray(state.sim_trajectory.valid), model, f'planning validity, step {i}')
    t += 1
  return ['inj' if inj else 'noinj']


@st.composite
def agents_hist(draw):
  c = draw(hist(dyns=('bicycle',)))
  N = c['sc']['log']['x'].shape[0]
  k = draw(st.integers(1, 2))
  src = gens.Src(draw, 40 * k * len(c['acts']))
  sdc = c['sc']['md']['is_sdc']
  # The objects start far from one another: initially overlapping objects may
  # not be taken over.
  c['sc']['log']['x'][:, 0] += np.arange(N, dtype=np.float32) * 200
  c['tables'] = [[dict(data=src.sym((N, 5), 20.0), mask=src.bits((N,), 130) & ~sdc,
                       valid=np.ones((N, 1), bool), inc=1) for _ in range(k)]
                 for _ in c['acts']]
  return c


@R.law(agents_hist(), quick=120,
       rule='planning-agent environment with simulation agents: the SDC and the '
            'objects the agents control follow the same automaton')
def planning_with_agents_validity(c):
  import jax
  import jax.numpy as jnp
  from waymax import env as E
  from checks import c18
  sc = c['sc']
  N, T = sc['log']['x'].shape
  k, inj = len(c['tables'][0]), c['inj']

  def make():
    def f(state, action, params):
      e = E.PlanningAgentEnvironment(
          envs.DYNS['bicycle'].make(), envs.config('SDC', inj, c['init'], N),
          [c18.table_agent(i) for i in range(k)], params)
      return e.step(state, action)
    e0 = E.PlanningAgentEnvironment(
        envs.DYNS['bicycle'].make(), envs.config('SDC', inj, c['init'], N),
        [c18.table_agent(i) for i in range(k)], [{}] * k)
    return e0, jax.jit(f)
  e0, f = envs.cached(('c03a', N, k, c['init'], inj), make)
  sdc = int(np.argmax(sc['md']['is_sdc']))
  state = e0.reset(gens.to_state(sc))
  model = np.zeros((N, T), bool)
  model[:, :c['init']] = sc['log']['valid'][:, :c['init']]
  t = c['init'] - 1
  v, lab = sc['log']['valid'], []
  for i, a in enumerate(c['acts']):
    tabs = c['tables'][i]
    state = f(state, envs.to_action({q: w[sdc] for q, w in a.items()}),
              [{q: jnp.asarray(w) for q, w in d.items()} for d in tabs])
    ctrl = np.array(sc['md']['is_sdc'])
    for d in tabs:
      ctrl |= d['mask']
    model[:, t + 1] = ref.next_valid(model[:, t], v[:, t + 1], ctrl, inj)
    eq(np.asarray(state.sim_trajectory.valid), model,
       f'planning validity with agents, step {i}, controlled {ctrl.tolist()}')
    if (v[:, t + 1] & ~model[:, t]).any():
      lab.append('appears')
    t += 1
  return lab


@st.composite
def full_case(draw):
  sc = draw(gens.big())
  acts = [draw(envs.actions(2, (128,)))] * 80
  acts[0]['valid'][:] = True
  return dict(sc=sc, dyn='bicycle', init=11, ctrl=draw(st.sampled_from(envs.CTRLS)), inj=draw(st.booleans()),
              acts=acts)


@R.law(full_case(), quick=12, name='full-size scenes', rule='128 objects over 80 steps')
def full_size(c):
  return validity_automaton(c)


def make_own():
  """Steps of states that are each at their own timestep."""
  from waymax import datatypes, env as E
  e = E.BaseEnvironment(envs.DYNS['delta_global'].make(), envs.config('VALID', True, 2, batching.N))

  def f(s, a):
    return e.step(s, datatypes.Action(data=a['data'], valid=a['valid'])).sim_trajectory.valid
  return f


batching.own_timesteps(R, make_own, envs.DYNS['delta_global'].dim)
