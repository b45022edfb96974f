"""C05: every dynamics model integrates its documented motion equations."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, eq, close, require, Violation

R = Registry('C05', 'Random current states (headings around the wrap point, far '
             'map coordinates, zero and high speed) and actions for every '
             'dynamics model and timestep length; oracle: float64 motion '
             'equations; non-trivial: a valid object with a non-zero action or '
             'speed.')

MODELS = {
    'bicycle': [dict(), dict(dt=0.05), dict(dt=0.25, max_accel=3.0, max_steering=0.8),
                dict(normalize_actions=True),
                dict(normalize_actions=True, max_accel=2.5, max_steering=0.05, dt=0.2)],
    'delta_global': [dict(), dict(dt=0.05), dict(dt=0.2, max_dx=1.0, max_dy=2.0, max_dyaw=0.5)],
    'delta_local': [dict(), dict(dt=0.05), dict(dt=0.2, max_dx=1.0, max_dy=2.0, max_dyaw=0.5)],
    'state': [dict()],
}
KEYS = [(k, i) for k in MODELS for i in range(len(MODELS[k]))]


def model(key):
  k, i = key
  return envs.cached(('c05', k, i), lambda: ref.Dyn(k, **MODELS[k][i]))


@st.composite
def case(draw, shapes=((6,), (1,), (2, 3))):
  shape = draw(st.sampled_from(shapes))
  key = draw(st.sampled_from(KEYS))
  d = model(key)
  n = int(np.prod(shape))
  src = gens.Src(draw, 2 * n * 8 + 6 * n)
  off = draw(st.sampled_from([0.0, 0.0, 900.0, -8000.0]))
  yaw = src.sym(shape, 3.3) if draw(st.booleans()) else np.asarray(gens.YAWS)[
      src.ints(shape, 0, len(gens.YAWS) - 1)]
  sp = draw(st.sampled_from([20.0, 20.0, 70.0, 1.0, 0.0]))
  heading = yaw if draw(st.booleans()) else src.sym(shape, 3.1)
  speed = src.unit(shape, 0, sp)
  cur = dict(x=src.sym(shape, 50) + off, y=src.sym(shape, 50) - off,
             z=src.sym(shape, 5), yaw=yaw, vel_x=speed * np.cos(heading),
             vel_y=speed * np.sin(heading), length=src.unit(shape, .5, 6),
             width=src.unit(shape, .5, 3), height=src.unit(shape, .5, 3))
  cur = {k: np.asarray(v, np.float32) for k, v in cur.items()}
  cur['valid'] = src.bits(shape, 200)
  cur['timestamp_micros'] = np.full(shape, 100000, np.int32)
  act = draw(envs.actions(d.dim, shape, over=False, lim=d.spec))
  if key[0] == 'bicycle' and draw(st.booleans()):
    act['data'] = act['data'] * np.float32(3)  # bicycle clips
  return dict(key=key, cur=cur, act=act)


def traj1(cur):
  return gens.to_traj({k: v[..., None] for k, v in cur.items()})


def check_update(d, kind, cur, act, out, what):
  want, tol = d.update(cur, act['data']), d.tol(cur, act['data'])
  for k in ref.FIELDS:
    g = np.asarray(getattr(out, k))
    require(g.shape == cur['x'].shape + (1,), f'{what}: {k} shape {g.shape}')
    g = g[..., 0]
    if k == 'yaw' and kind == 'bicycle':
      require((ref.angdiff(g, want[k]) <= tol[k]).all(),
              f'{what}: yaw {g} expected {want[k]}')
      require((g >= -np.pi - 1e-5).all() and (g <= np.pi + 1e-5).all(),
              f'{what}: bicycle yaw not wrapped: {g}')
    else:
      close(g, want[k], f'{what}: {k}', atol=tol[k])
  v = act['valid'][..., 0] if kind == 'state' else act['valid'][..., 0] & cur['valid']
  eq(np.asarray(out.valid)[..., 0], v, f'{what}: validity of the update')


def upd(key):
  import jax
  d = model(key)
  m = envs.cached(('c05m', key), d.make)
  return m, envs.cached(('c05j', key), lambda: jax.jit(m.compute_update))


@R.law(case(), quick=900)
def motion_equations(c):
  d = model(tuple(c['key']))
  _, f = upd(tuple(c['key']))
  out = f(envs.to_action(c['act']), traj1(c['cur']))
  check_update(d, c['key'][0], c['cur'], c['act'], out, c['key'][0])
  live = c['cur']['valid'] & (np.abs(c['act']['data']).max(-1) > 0)
  return [c['key'][0]] if live.any() else []


@R.law(case(shapes=((3,),)), quick=80)
def motion_equations_eager(c):
  d = model(tuple(c['key']))
  m, _ = upd(tuple(c['key']))
  out = m.compute_update(envs.to_action(c['act']), traj1(c['cur']))
  out.validate()
  check_update(d, c['key'][0], c['cur'], c['act'], out, c['key'][0] + ' eager')
  return [c['key'][0]]


@st.composite
def fwd(draw, batch=None):
  c = draw(case(shapes=((4,),) if not batch else ((batch, 4),)))
  T = 5
  scs = [draw(gens.scenario(N=4, T=T, P=2, L=1, sim='free')) for _ in range(batch or 1)]
  sc = gens.stack_cases(scs) if batch else scs[0]
  t = draw(st.integers(0, T - 2))
  for k in ref.FIELDS + ('valid',):
    sc['sim'][k][..., t] = c['cur'][k]
  c['act']['valid'][:] = True
  return dict(c, sim=sc['sim'], log=sc['log'], t=t)


def do_forward(c):
  import jax
  import jax.numpy as jnp
  key = tuple(c['key'])
  d = model(key)
  m = envs.cached(('c05m', key), d.make)
  f = envs.cached(('c05f', key), lambda: jax.jit(
      lambda a, s, l, k, t: m.forward(action=a, trajectory=s,
                                      reference_trajectory=l, is_controlled=k,
                                      timestep=t)))
  ctrl = np.ones(c['cur']['x'].shape, bool)
  out = gens.traj_np(f(envs.to_action(c['act']), gens.to_traj(c['sim']),
                       gens.to_traj(c['log']), jnp.asarray(ctrl), jnp.asarray(c['t'])))
  cur = ref.at(c['sim'], c['t'])
  want, tol = d.update(cur, c['act']['data']), d.tol(cur, c['act']['data'])
  sel = cur['valid']
  for k in ref.FIELDS:
    g = out[k][..., c['t'] + 1]
    if k == 'yaw' and key[0] == 'bicycle':
      require((ref.angdiff(g, want[k])[sel] <= tol[k][sel]).all(), f'forward yaw {g} {want[k]}')
    else:
      close(g[sel], want[k][sel], f'forward {k}', atol=tol[k][sel])
  return [key[0]] if sel.any() else []


@R.law(fwd(), quick=300, rule='forward() at a random timestep of a trajectory')
def forward_equations(c):
  return do_forward(c)


@R.law(fwd(batch=2), quick=80, rule='batched forward()')
def forward_equations_batched(c):
  return do_forward(c)


@st.composite
def frame(draw):
  c = draw(case(shapes=((3,),)))
  src = gens.Src(draw, 8)
  return dict(c, ang=float(src.sym((), 3.1)), tx=float(src.sym((), 40)), ty=float(src.sym((), 40)))


@R.law(frame(), quick=200, rule='rigid motion of the current state '
       '(frame-relative models: bicycle, local delta)')
def rigid_motion_equivariance(c):
  """Moving the world moves the outcome: bicycle and local deltas."""
  if c['key'][0] not in ('bicycle', 'delta_local'):
    return []
  _, f = upd(tuple(c['key']))
  a = f(envs.to_action(c['act']), traj1(c['cur']))
  cur = {k: v.copy() for k, v in c['cur'].items()}
  x, y = ref.rigid(cur['x'], cur['y'], c['ang'], c['tx'], c['ty'])
  vx, vy = ref.rigid(cur['vel_x'], cur['vel_y'], c['ang'], 0, 0)
  cur.update(x=np.float32(x), y=np.float32(y), vel_x=np.float32(vx), vel_y=np.float32(vy),
             yaw=np.float32(cur['yaw'] + c['ang']))
  b = f(envs.to_action(c['act']), traj1(cur))
  wx, wy = ref.rigid(np.asarray(a.x)[..., 0], np.asarray(a.y)[..., 0], c['ang'], c['tx'], c['ty'])
  big = 1e-5 * (1 + np.abs(wx) + np.abs(wy) + np.abs(c['cur']['x']) + np.abs(c['cur']['y'])) + 1e-3
  close(np.asarray(b.x)[..., 0], wx, 'x after rigid motion', atol=big)
  close(np.asarray(b.y)[..., 0], wy, 'y after rigid motion', atol=big)
  require((ref.angdiff(np.asarray(b.yaw), np.asarray(a.yaw) + c['ang']) < 2e-4).all(),
          'yaw after rigid motion')
  return [c['key'][0]]


def make_own():
  """Updates of states that are each at their own timestep."""
  models = {k: d.make() for k, d in envs.DYNS.items()}

  def f(s, a):
    from waymax import datatypes
    return {k: m.compute_update(datatypes.Action(data=a['data'][..., :m.action_spec().shape[0]], valid=a['valid']), s.current_sim_trajectory)
            for k, m in models.items()}
  return f


batching.own_timesteps(R, make_own, 5)
