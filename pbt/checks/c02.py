"""C02: controlled objects follow the dynamics, others replay the log."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, eq, close, require, Violation

R = Registry('C02', 'Random scenario, timestep, control configuration, dynamics '
             'model and in-bounds actions; oracle: float64 motion equations for '
             'controlled existing objects with valid actions, bit-exact log for '
             'the others; non-trivial: at least one object is controlled and '
             'exists, or at least one is not controlled and logged.')


def check_step(c, post, sim=None, what='step'):
  sc, t = c['sc'], c['t']
  d = envs.DYNS[c['dyn']]
  sim = sc['sim'] if sim is None else sim
  ctrl = ref.control_mask(sc, c['ctrl'], c['inj'], c['init'], sim['valid'])
  out = gens.traj_np(post.sim_trajectory)
  cur = ref.at(sim, t)
  lab = set()
  # Uncontrolled: bit-exact log.
  for k in ref.FIELDS:
    eq(out[k][..., t + 1][~ctrl], sc['log'][k][..., t + 1][~ctrl],
       f'{what}: {k} of uncontrolled objects')
  if (~ctrl & sc['log']['valid'][..., t + 1]).any():
    lab.add('replay')
  sel = ctrl & cur['valid'] & c['act']['valid'][..., 0]
  if sel.any():
    lab.add('driven:' + c['dyn'])
    want = d.update(cur, c['act']['data'])
    tol = d.tol(cur, c['act']['data'])
    for k in ref.FIELDS:
      g, w = out[k][..., t + 1][sel], want[k][sel]
      if k == 'yaw' and c['dyn'].startswith('bicycle'):
        err = ref.angdiff(g, w)
        if not (err <= tol[k][sel]).all():
          raise Violation(f'{what}: yaw of controlled objects: {g} vs {w}')
      else:
        close(g, w, f'{what}: {k} of controlled objects', atol=tol[k][sel])
  return lab


@st.composite
def case(draw, shapes=((4, 6), (2, 3)), batch=None, dyns=sorted(envs.DYNS)):
  N, T = draw(st.sampled_from(shapes))
  dyn = draw(st.sampled_from(list(dyns)))
  t = draw(st.integers(0, T - 2))
  scs = [draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
         for _ in range(batch or 1)]
  for s in scs:
    s['timestep'] = t
  sc = gens.stack_cases(scs) if batch else envs.shift_world(draw, scs[0])
  d = envs.DYNS[dyn]
  shape = (batch, N) if batch else (N,)
  act = draw(envs.actions(d.dim, shape, lim=d.spec,
                          over=False))
  return dict(sc=sc, dyn=dyn, ctrl=draw(st.sampled_from(envs.CTRLS)),
              inj=draw(st.booleans()), init=draw(st.sampled_from([1, 2])), t=t,
              act=act)


def do(c, act=None, sc=None, eager=False):
  sc = c['sc'] if sc is None else sc
  N = sc['log']['x'].shape[-2]
  f = (envs.env(c['dyn'], c['ctrl'], c['inj'], c['init'], N).step if eager else
       envs.step(c['dyn'], c['ctrl'], c['inj'], c['init'], N))
  return f(gens.to_state(sc, c['t']), envs.to_action(c['act'] if act is None else act))


@R.law(case(), quick=600)
def step_matches_model(c):
  return sorted(check_step(c, do(c)))


@R.law(case(shapes=((4, 6),)), quick=80)
def step_matches_model_eager(c):
  return sorted(check_step(c, do(c, eager=True)))


@R.law(case(shapes=((3, 4),), batch=2), quick=100)
def step_matches_model_batched(c):
  return sorted(check_step(c, do(c)))


@st.composite
def indep(draw):
  c = draw(case(shapes=((4, 6),), dyns=('bicycle', 'delta_local', 'state')))
  other = draw(gens.scenario(N=4, T=6, P=2, L=1, sim='free'))
  i = draw(st.integers(0, 3))
  oact = draw(envs.actions(envs.DYNS[c['dyn']].dim, (4,)))
  bad = draw(st.sampled_from(['plain', 'nan', 'inf']))
  if bad != 'plain':
    oact['data'] = np.full_like(oact['data'], np.nan if bad == 'nan' else np.inf)
  perm = draw(st.permutations(range(4)))
  return dict(c=c, other=other, i=i, oact=oact, perm=list(perm))


@R.law(indep(), quick=150, rule='object i kept, every other object replaced')
def independent_of_others(d):
  """Replacing all other objects (state, log, action) leaves object i alone."""
  c, i = d['c'], d['i']
  base = gens.traj_np(do(c).sim_trajectory)
  sc2 = {k: v for k, v in c['sc'].items()}
  for part in ('sim', 'log', 'md'):
    sc2[part] = {k: v.copy() for k, v in d['other'][part].items()}
    for k in sc2[part]:
      sc2[part][k][i] = c['sc'][part][k][i]
  act = {k: v.copy() for k, v in d['oact'].items()}
  for k in act:
    act[k][i] = c['act'][k][i]
  out = gens.traj_np(do(c, act=act, sc=sc2).sim_trajectory)
  for k in envs.TRAJ_FIELDS:
    eq(out[k][i], base[k][i], f'{k} of object {i} depends on other objects')
  return [c['dyn']] if c['sc']['sim']['valid'][i, c['t']] else []


@R.law(indep(), quick=150, rule='permutation of the objects')
def permutation_equivariant(d):
  c, p = d['c'], d['perm']
  base = gens.traj_np(do(c).sim_trajectory)
  sc2 = {k: v for k, v in c['sc'].items()}
  for part in ('sim', 'log', 'md'):
    sc2[part] = {k: v[p] for k, v in c['sc'][part].items()}
  act = {k: v[p] for k, v in c['act'].items()}
  out = gens.traj_np(do(c, act=act, sc=sc2).sim_trajectory)
  for k in envs.TRAJ_FIELDS:
    eq(out[k], base[k][p], f'{k} not equivariant under permutation')
  return [c['dyn']] if p != [0, 1, 2, 3] else []


@st.composite
def hist(draw):
  dyn = draw(st.sampled_from(['bicycle', 'delta_global', 'delta_local', 'state']))
  init = draw(st.sampled_from([1, 3]))
  n = draw(st.integers(1, 7 - init))
  return dict(sc=draw(gens.scenario(N=3, T=7, P=2, L=1)), dyn=dyn, init=init,
              ctrl=draw(st.sampled_from(envs.CTRLS)), inj=draw(st.booleans()),
              acts=[draw(envs.actions(envs.DYNS[dyn].dim, (3,), over=False,
                                      lim=envs.DYNS[dyn].spec)) for _ in range(n)])


@R.law(hist(), quick=200, rule='histories from reset, checked at every step')
def history_matches_model(c):
  state = envs.reset(c['init'], 3)(gens.to_state(c['sc']))
  f = envs.step(c['dyn'], c['ctrl'], c['inj'], c['init'], 3)
  lab = set()
  for i, a in enumerate(c['acts']):
    cc = dict(c, t=c['init'] - 1 + i, act=a)
    sim = gens.traj_np(state.sim_trajectory)
    state = f(state, envs.to_action(a))
    lab |= check_step(cc, state, sim=sim, what=f'step {i}')
  return sorted(lab)


@st.composite
def applied(draw):
  c = draw(case(shapes=((4, 6),), dyns=('bicycle', 'state')))
  src = gens.Src(draw, 400)
  b = draw(st.sampled_from([(), (), (2,)]))
  if b:
    c2 = draw(case(shapes=((4, 6),), dyns=('bicycle',)))
    c['sc'] = gens.stack_cases([c['sc'], c2['sc']])
  c['upd'] = {k: src.sym(b + (4, 1), 30.0) for k in ref.FIELDS}
  c['upd']['valid'] = src.bits(b + (4, 1), 150)
  c['mask'] = src.bits(b + (4,), 150)
  c['fallback'] = draw(st.booleans())
  return c


@R.law(applied(), quick=150,
       rule='a trajectory update applied to a state, with and without the '
            'constant-speed fallback for controlled objects without one')
def applied_update(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.dynamics import abstract_dynamics as ad
  sc, t, inj, fb = c['sc'], c['t'], c['inj'], c['fallback']
  f = envs.cached(('c02a', inj, fb, c['mask'].ndim), lambda: jax.jit(
      lambda u, s, l, m, t: ad.apply_trajectory_update_to_state(
          u, s, l, m, t, allow_object_injection=inj, use_fallback=fb)))
  u = datatypes.TrajectoryUpdate(**{k: jnp.asarray(v) for k, v in c['upd'].items()})
  out = gens.traj_np(f(u, gens.to_traj(sc['sim']), gens.to_traj(sc['log']),
                       jnp.asarray(c['mask']), t))
  m, uv, cur = c['mask'], c['upd']['valid'][..., 0], ref.at(sc['sim'], t)
  rest = np.arange(out['x'].shape[-1]) != t + 1
  for k in envs.TRAJ_FIELDS:
    eq(out[k][..., rest], sc['sim'][k][..., rest], f'{k} at other timesteps')
  for k in ('z', 'length', 'width', 'height'):
    eq(out[k][..., t + 1], cur[k].astype(np.float32), f'{k} carried over')
  eq(out['timestamp_micros'][..., t + 1], sc['log']['timestamp_micros'][..., t + 1], 'timestamps')
  eq(out['valid'][..., t + 1], ref.next_valid(cur['valid'], sc['log']['valid'][..., t + 1], m, inj),
     'validity')
  lab = set()
  for k in ref.FIELDS:
    g = out[k][..., t + 1]
    eq(g[~m], sc['log'][k][..., t + 1][~m], f'{k} of uncontrolled objects')
    eq(g[m & uv], c['upd'][k][..., 0][m & uv], f'{k} of controlled objects')
    s = m & ~uv & cur['valid']
    if fb and s.any():
      lab.add('fallback')
      if k in ('x', 'y'):
        w = cur[k] + 0.1 * cur['vel_' + k]
        close(g[s], w[s], f'constant-speed {k}', 1e-6 * (40 + np.abs(w[s]).max()))
      elif k == 'yaw':
        sp = np.hypot(cur['vel_x'], cur['vel_y'])
        q = s & (sp > 0.01)
        require((ref.angdiff(g, np.arctan2(cur['vel_y'], cur['vel_x']))[q] < 1e-5).all(),
                'constant-speed heading', g)
      else:
        eq(g[s], cur[k].astype(np.float32)[s], f'constant-speed {k}')
  if (m & uv).any():
    lab.add('update')
  return sorted(lab)


@st.composite
def full_case(draw):
  sc = draw(gens.big())
  dyn = draw(st.sampled_from(['bicycle', 'delta_local', 'delta_global', 'state']))
  d = envs.DYNS[dyn]
  return dict(sc=sc, dyn=dyn, ctrl=draw(st.sampled_from(envs.CTRLS)), inj=draw(st.booleans()), init=11,
              t=sc['timestep'], act=draw(envs.actions(d.dim, (128,), lim=d.spec, over=False)))


@R.law(full_case(), quick=40, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  return sorted(check_step(c, do(c)))


def make_own():
  """Steps of states that are each at their own timestep."""
  from waymax import datatypes, env as E
  e = E.BaseEnvironment(envs.DYNS['state'].make(), envs.config('MODELED', True, 2, batching.N))

  def f(s, a):
    return e.step(s, datatypes.Action(data=a['data'], valid=a['valid'])).sim_trajectory
  return f


batching.own_timesteps(R, make_own, envs.DYNS['state'].dim)
