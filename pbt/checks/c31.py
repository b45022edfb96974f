"""C31: the choice of world frame never changes results."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import meta
import ref
from meta import same
from harness import Registry

R = Registry('C31', 'Random scenes, actions and planar rigid motions; oracle: the '
             'same operation on the moved scene (and moved action, where actions '
             'are expressed in the world frame). Non-trivial: the motion is not '
             'the identity and something valid is compared.',
             ['a difference counts when it survives three small shifts of all '
              'positions (ties and exact thresholds are not judged)',
              'translations up to 60 m, so that float32 rounding stays small',
              'observations do not transform SDC paths'])
TOL = 3e-3


def move_xy(x, y, m):
  a, b = ref.rigid(np.asarray(x, float), np.asarray(y, float), *m)
  return np.asarray(a, np.float32), np.asarray(b, np.float32)


def move_traj(d, m):
  d = dict(d)
  d['x'], d['y'] = move_xy(d['x'], d['y'], m)
  d['vel_x'], d['vel_y'] = move_xy(d['vel_x'], d['vel_y'], (m[0], 0, 0))
  d['yaw'] = np.asarray(ref.wrap(d['yaw'].astype(float) + m[0]), np.float32)
  return d


def move(sc, m):
  sc = dict(sc, log=move_traj(sc['log'], m), sim=move_traj(sc['sim'], m))
  for part in ('rg', 'tl', 'paths'):
    d = sc[part] = dict(sc[part])
    d['x'], d['y'] = move_xy(d['x'], d['y'], m)
    if part == 'rg':
      d['dir_x'], d['dir_y'] = move_xy(d['dir_x'], d['dir_y'], (m[0], 0, 0))
  return sc


def move_action(kind, data, m):
  data = np.array(data)
  if kind == 'delta_global':
    data[..., 0], data[..., 1] = move_xy(data[..., 0], data[..., 1], (m[0], 0, 0))
  elif kind == 'state':
    data[..., 0], data[..., 1] = move_xy(data[..., 0], data[..., 1], m)
    data[..., 2] = ref.wrap(data[..., 2] + m[0])
    data[..., 3], data[..., 4] = move_xy(data[..., 3], data[..., 4], (m[0], 0, 0))
  return data


def same_traj(got, want, what, tol=TOL, only=None):
  """want: dict or Trajectory, already in the frame of got; only: (N,) objects."""
  w = want if isinstance(want, dict) else gens.traj_np(want)
  v = np.asarray(got.valid)
  same(v, w['valid'], what + ' valid')
  if only is not None:
    v = v & only[:, None]
  for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'length', 'width', 'height', 'timestamp_micros'):
    same(getattr(got, k), w[k], f'{what} {k}', v, tol)
  same(got.yaw, w['yaw'], what + ' yaw', v, tol, angle=True)


def same_metrics(a, b, what):
  for k in a:
    same(a[k][1], b[k][1], f'{what} {k} valid')
    same(a[k][0], b[k][0], f'{what} {k}', None if np.shape(a[k][1]) != np.shape(a[k][0]) else a[k][1],
         2e-2 if 'progress' in k else TOL)


def same_obs(a, b, what, m=None):
  tr = gens.traj_np(b.trajectory)
  if m:
    tr = dict(move_traj(tr, m), valid=tr['valid'])
  same_traj(a.trajectory, tr, what + ' trajectory')
  same(a.is_ego, b.is_ego, what + ' is_ego')
  for part in ('roadgraph_static_points', 'traffic_lights'):
    x, y = getattr(a, part), getattr(b, part)
    v = np.asarray(x.valid)
    same(v, y.valid, f'{what} {part} valid')
    bx, by = (y.x, y.y) if m is None else move_xy(y.x, y.y, m)
    same(x.x, bx, f'{what} {part} x', v, TOL)
    same(x.y, by, f'{what} {part} y', v, TOL)
    same(x.z, y.z, f'{what} {part} z', v, TOL)
    if part == 'traffic_lights':
      same(x.state, y.state, what + ' light state', v)
      same(x.lane_ids, y.lane_ids, what + ' lane', v)
    else:
      dx, dy = (y.dir_x, y.dir_y) if m is None else move_xy(y.dir_x, y.dir_y, (m[0], 0, 0))
      same(x.dir_x, dx, what + ' direction x', v, TOL)
      same(x.dir_y, dy, what + ' direction y', v, TOL)
      same(x.types, y.types, what + ' type', v)
      same(x.ids, y.ids, what + ' id', v)


@st.composite
def case(draw, scene=meta.case()):
  c = draw(scene)
  src = gens.Src(draw, 40)
  c['m'] = [float(draw(st.sampled_from([0.5, -0.7, 1.9, 2.6, -2.9, np.pi / 2, np.pi, 0.0])))] + [float(v) for v in src.sym((2,), 60)]
  return c


@R.law(case(), quick=320, name='rigid motion of the world')
def moved(c):
  m = tuple(c['m'])
  labels = set()

  def compare(c):
    a = meta.outputs(c)
    sc2 = move(c['sc'], m)
    act2 = dict(c['act'], data=move_action(c['kind'], c['act']['data'], m))
    b = meta.outputs(c, sc2, act2)
    ok_env, ok_plan = meta.judged(c, a)
    for key in ('next', 'reset'):
      tr = move_traj(gens.traj_np(a['env'][key]), m)
      same_traj(b['env'][key], tr, f'{c["kind"]} {key}', only=ok_env)
    v = c['sc']['sim']['valid'][:, c['sc']['timestep']]
    same(b['env']['reward'], a['env']['reward'], 'reward', v, TOL)
    for x, y in zip(b['env']['flags'], a['env']['flags']):
      same(x, y, 'episode flags')
    same_metrics(b['metrics'], a['metrics'], 'metric')
    same_obs(b['sdc'], a['sdc'], 'SDC-frame observation')
    same_obs(b['obj'], a['obj'], 'object-frame observation')
    same_obs(b['glob'], a['glob'], 'global observation', m)
    same_traj(b['plan']['next'], move_traj(gens.traj_np(a['plan']['next']), m), f'planning step ({c["plan"]})', only=ok_plan)
    same_metrics(b['plan']['metrics'], a['plan']['metrics'], 'planning metric')
    same(b['plan']['reward'], a['plan']['reward'], 'planning reward', None, TOL)
    for k, o in b['agents'].items():
      p = a['agents'][k]
      same(o['on'], p['on'], f'{k}: control')
      want = move_action('state', p['data'], m)
      on = np.asarray(o['on'])[:, None]
      same(o['data'][:, [0, 1, 3, 4]], want[:, [0, 1, 3, 4]], f'{k}: action', on, TOL)
      same(o['data'][:, 2:3], want[:, 2:3], f'{k}: heading', on, TOL, angle=True)
    if v.any() and m[0]:
      labels.add(c['kind'])
      labels.add('plan ' + (c['plan'] or 'alone'))
  meta.run(c, compare)
  return labels


@R.law(case(scene=meta.full_case()), quick=25, name='rigid motion of a full-size world')
def moved_full(c):
  return moved(c)


KINDS = ('bicycle', 'bicycle_norm', 'delta_global', 'delta_local', 'state')


def inverses():
  import jax

  def make():
    from waymax.metrics import comfort
    dyn = {k: envs.DYNS[k].make() for k in KINDS}
    kim = comfort.KinematicsInfeasibilityMetric()

    def f(tr, md, t):
      out = {k: d.inverse(tr, md, t) for k, d in dyn.items()}
      m = kim.compute_kinematics_infeasibility(tr, t + 1)
      return {k: (a.data, a.valid) for k, a in out.items()}, (m.value, m.valid)
    return jax.jit(f)
  return envs.cached('c31 inverses', make)


@st.composite
def arcs(draw):
  src = gens.Src(draw, 400)
  n, T = 6, 5
  v0 = src.unit((n,), 3, 15)
  acc = src.sym((n,), 6)
  curv = np.where(src.bits((n,)), src.sym((n,), .2), np.where(src.bits((n,)), .45, -.4))
  # headings that pass pi, pi/2 or nothing in particular during the arc
  yaw0 = np.asarray([np.pi, -np.pi, np.pi / 2, 0.])[src.ints((n,), 0, 3)] + src.sym((n,), .3)
  yaw0 = np.where(src.ints((n,), 0, 3) == 0, src.sym((n,), 3.1), yaw0)
  pos, yaw, v = src.sym((n, 2), 40).astype(float), yaw0, v0.astype(float)
  out = {k: [] for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')}
  for _ in range(T):
    for k, a in zip(out, (pos[:, 0], pos[:, 1], ref.wrap(yaw), v * np.cos(yaw), v * np.sin(yaw))):
      out[k].append(a)
    d = v * .1 + .5 * acc * .01
    pos = pos + np.stack([np.cos(yaw), np.sin(yaw)], -1) * (d)[:, None]
    yaw, v = yaw + curv * d, np.maximum(v + acc * .1, 0.)
  tr = gens.trajectory(draw, n, T)
  tr.update({k: np.stack(a, -1).astype(np.float32) for k, a in out.items()})
  tr['valid'] = tr['valid'] | (src.ints((n, T), 0, 5) > 0)
  return dict(tr=tr, t=draw(st.integers(0, T - 2)),
              m=[float(draw(st.sampled_from([0.5, -0.7, 1.9, 2.6, -2.9, np.pi / 2, np.pi])))]
              + [float(a) for a in src.sym((2,), 60)])


@R.law(arcs(), quick=150, name='inverse dynamics of turning objects',
       rule='an object drives along an arc')
def turning(c):
  from checks import c06
  import jax.numpy as jnp
  m, t = tuple(c['m']), jnp.int32(c['t'])
  f, md = inverses(), c06.metadata(6)
  a, ka = f(gens.to_traj(c['tr']), md, t)
  b, kb = f(gens.to_traj(move_traj(c['tr'], m)), md, t)
  for k in KINDS:
    on = np.asarray(a[k][1])
    same(b[k][1], a[k][1], f'{k}: validity of the inverse')
    want, got = move_action(k, a[k][0], m), np.asarray(b[k][0])
    tol = 2e-2 if 'bicycle' in k else TOL
    if k == 'bicycle_norm':   # an action of 1 stands for 6 m/s^2 and 0.3 1/m
      tol = 5e-2
    ang = 2 if k in ('delta_global', 'delta_local', 'state') else None
    for j in range(want.shape[-1]):
      same(got[:, j], want[:, j], f'{k}: component {j} of the inverse', on[:, 0], tol, angle=j == ang)
  same(kb[1], ka[1], 'infeasibility valid')
  same(kb[0], ka[0], 'infeasibility', ka[1], TOL)
  return [k for k in KINDS if np.asarray(a[k][1]).any()]
