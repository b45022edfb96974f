"""C10: coordinate transforms are rigid motions consistent with each other."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from harness import Registry, close, eq, require, Violation

R = Registry('C10', 'Random poses (headings beyond pi, far coordinates, several '
             'batch shapes), points, directions, boxes, trajectories, map points '
             'and lights; oracle: float64 planar rigid motions. Non-trivial: a '
             'pose with non-zero heading and position.')

PRE = [(), (3,), (2, 3)]
IN = [(4,), (2, 3), ()]


def fn(name):
  def make():
    import jax
    from waymax.utils import geometry as g
    return jax.jit(getattr(g, name))
  return envs.cached(('c10', name), make)


def into(px, py, yaw, x, y):
  """Coordinates of (x, y) in the frame of the pose (float64)."""
  px, py, yaw, x, y = (np.asarray(v, float) for v in (px, py, yaw, x, y))
  c, s = np.cos(yaw), np.sin(yaw)
  dx, dy = x - px, y - py
  return c * dx + s * dy, -s * dx + c * dy


def tol(*arrs, scale=2e-6):
  return scale * (4 + sum(float(np.abs(np.asarray(a)).max(initial=0)) for a in arrs)) * 3


def ex(a, k):
  """Expands k trailing dims."""
  a = np.asarray(a, float)
  return a.reshape(a.shape + (1,) * k)


@st.composite
def pose_case(draw):
  pre, inn = draw(st.sampled_from(PRE)), draw(st.sampled_from(IN))
  n, m = int(np.prod(pre)), int(np.prod(pre + inn))
  src = gens.Src(draw, 2 * (n * 6 + m * 10) + 6 * m)
  off = draw(st.sampled_from([0.0, 0.0, 300.0, -8000.0]))
  yaw = src.sym(pre, 4.0) if draw(st.integers(0, 2)) else np.asarray(gens.YAWS)[
      src.ints(pre, 0, len(gens.YAWS) - 1)]
  xy = src.sym(pre + (2,), 40) + np.float32(off)
  pts = src.sym(pre + inn + (2,), 60) + np.float32(off)
  vec = src.sym(pre + inn + (2,), 15)
  if draw(st.integers(0, 2)) == 0:   # vectors along an axis, or zero
    vec = np.where(src.bits(vec.shape), vec, np.float32(0))
  if draw(st.integers(0, 4)) == 0:   # points with zero coordinates
    pts = np.where(src.bits(pts.shape), pts, np.float32(0))
  return dict(yaw=np.asarray(yaw, np.float32), xy=np.asarray(xy, np.float32),
              pts=np.asarray(pts, np.float32), vec=vec,
              yaws=src.sym(pre + inn, draw(st.sampled_from([5.0, 5.0, 40.0]))),
              lw=src.unit(pre + inn + (2,), .2, 9))


def lab(c):
  return ['pose'] if (np.abs(c['yaw']) > .01).any() and (np.abs(c['xy']) > .1).any() else []


@R.law(pose_case(), quick=450, name='pose matrix and points')
def law_pose(c):
  yaw, xy, pts = c['yaw'], c['xy'], c['pts']
  k = pts.ndim - 1 - yaw.ndim
  mat, pyaw = fn('pose_from_xy_yaw')(xy, yaw)
  mat, pyaw = np.asarray(mat), np.asarray(pyaw)
  require(mat.shape == yaw.shape + (3, 3) and pyaw.shape == yaw.shape, 'shapes')
  t = tol(xy, pts)
  rot = mat[..., :2, :2].astype(float)
  close(rot @ np.swapaxes(rot, -1, -2), np.broadcast_to(np.eye(2), rot.shape),
        'rotation is orthogonal', 5e-6)
  close(np.linalg.det(rot), np.ones(yaw.shape), 'det', 5e-6)
  eq(mat[..., 2, :], np.broadcast_to(np.float32([0, 0, 1]), yaw.shape + (3,)), 'last row')
  close(pyaw, -yaw, 'pose yaw', 1e-6)
  ex_, ey_ = into(ex(xy[..., 0], k), ex(xy[..., 1], k), ex(yaw, k), pts[..., 0], pts[..., 1])
  got = np.asarray(fn('transform_points')(mat, pts))
  close(got, np.stack([ex_, ey_], -1), 'transform_points', t)
  # own origin and heading
  o = np.asarray(fn('transform_points')(mat, xy.reshape(xy.shape)))
  close(o, np.zeros(o.shape), 'origin of the pose', t)
  close(np.asarray(fn('transform_yaw')(pyaw, yaw)), np.zeros(yaw.shape), 'heading of the pose', 1e-5)
  # inverse pose
  inv = np.linalg.inv(mat.astype(float)).astype(np.float32)
  back = np.asarray(fn('transform_points')(inv, got))
  close(back, pts, 'inverse pose', 4 * t)
  # directions ignore translation
  d = np.asarray(fn('transform_direction')(mat, c['vec']))
  dx, dy = into(0, 0, ex(yaw, k), c['vec'][..., 0], c['vec'][..., 1])
  close(d, np.stack([dx, dy], -1), 'transform_direction', 2e-4)
  return lab(c)


@R.law(pose_case(), quick=350, name='rotation, wrapping and corners')
def law_rot(c):
  yaw, vec = c['yaw'], c['vec']
  k = vec.ndim - 1 - yaw.ndim
  m = np.asarray(fn('rotation_matrix_2d')(yaw))
  cs, sn = np.cos(yaw.astype(float)), np.sin(yaw.astype(float))
  close(m, np.stack([np.stack([cs, -sn], -1), np.stack([sn, cs], -1)], -2),
        'rotation_matrix_2d', 5e-6)
  r = np.asarray(fn('rotate_points')(m, vec))
  ex_, ey_ = ref.rigid(vec[..., 0], vec[..., 1], ex(yaw, k), 0, 0)
  close(r, np.stack([ex_, ey_], -1), 'rotate_points', 2e-4)
  from waymax.utils import geometry
  for a in (c['yaws'], yaw, np.asarray(gens.YAWS, np.float32)):
    w = np.asarray(geometry.wrap_yaws(np.asarray(a))).astype(float)
    require((w >= -np.pi - 1e-6).all() and (w <= np.pi + 1e-6).all(), 'wrap range', w)
    close(ref.angdiff(w, a), np.zeros(w.shape), 'wrapped angle not equivalent',
          5e-6 + 4e-7 * float(np.abs(np.asarray(a)).max(initial=0)))
    inside = np.abs(a) < 3.14
    close(np.where(inside, w, 0), np.where(inside, a, 0), 'wrap keeps angles in range', 2e-6)
  box = np.concatenate([c['pts'], c['lw'], c['yaws'][..., None]], -1)
  cor = np.asarray(fn('corners_from_bboxes')(box))
  e = ref.corners(*np.moveaxis(box, -1, 0))
  require(cor.shape == e.shape, 'corner shape', cor.shape)
  # As a set, whatever the order; the order is consistent (consecutive corners
  # are adjacent), which is what polygon drawing relies on.
  t = tol(c['pts'])
  dist = np.linalg.norm(cor[..., :, None, :] - e[..., None, :, :], axis=-1)
  require((dist.min(-1) < t).all() and (dist.min(-2) < t).all(),
          'corners', cor.tolist(), 'expected', e.tolist())
  side = np.linalg.norm(cor - np.roll(cor, -1, -2), axis=-1)
  lw = np.sort(c['lw'], -1)
  close(np.sort(side, -1), np.stack([lw[..., 0]] * 2 + [lw[..., 1]] * 2, -1),
        'consecutive corners', 4 * t)
  return lab(c)


@R.law(pose_case(), quick=250, name='transform_trajectories')
def law_traj(c):
  yaw, xy, pts = c['yaw'], c['xy'], c['pts']
  k = pts.ndim - 1 - yaw.ndim
  mat, pyaw = fn('pose_from_xy_yaw')(xy, yaw)
  t = tol(xy, pts)
  for dof in (5, 7):
    parts = [pts, c['lw'], c['yaws'][..., None]] + ([c['vec']] if dof == 7 else [])
    tr = np.concatenate(parts, -1)
    got = np.asarray(fn('transform_trajectories')(tr, mat, pyaw))
    require(got.shape == tr.shape, 'shape')
    x, y = into(ex(xy[..., 0], k), ex(xy[..., 1], k), ex(yaw, k), pts[..., 0], pts[..., 1])
    close(got[..., :2], np.stack([x, y], -1), f'xy ({dof} dof)', t)
    eq(got[..., 2:4], c['lw'], 'size changed')
    close(ref.angdiff(got[..., 4], c['yaws'] - ex(yaw, k)), np.zeros(c['yaws'].shape), 'yaw', 2e-5)
    if dof == 7:
      vx, vy = into(0, 0, ex(yaw, k), c['vec'][..., 0], c['vec'][..., 1])
      close(got[..., 5:], np.stack([vx, vy], -1), 'velocity', t)
  try:
    fn('transform_trajectories')(np.zeros(pts.shape[:-1] + (6,), np.float32), mat, pyaw)
  except ValueError:
    pass
  else:
    raise Violation('6-dof trajectories accepted')
  return lab(c)


# ----------------------------------------------------- datatype transforms ----
@st.composite
def obs_parts(draw):
  b = draw(st.sampled_from([(), (2,)]))
  O, N, T, P, L = 2, 3, 2, 4, 2
  n = int(np.prod(b)) * O
  src = gens.Src(draw, 2 * n * 16 + 2 * n)
  off = draw(st.sampled_from([0.0, 0.0, -3000.0]))
  poses = [dict(xy=(src.sym(b + (O, 2), 30) + np.float32(off)),
                yaw=src.sym(b + (O,), 4.0), valid=src.bits(b + (O,), 200))
           for _ in range(2)]
  trs, rgs, tls = [], [], []
  for _ in range(n):
    trs.append(gens.trajectory(draw, N, T))
    rgs.append(gens.roadgraph(draw, P))
    tls.append(gens.traffic_lights(draw, L, T))
  def stk(ds):
    return {k: np.stack([d[k] for d in ds]).reshape(b + (O,) + ds[0][k].shape) for k in ds[0]}
  tr, rg, tl = stk(trs), stk(rgs), stk(tls)
  for d in (tr, rg, tl):
    for kk in ('x', 'y'):
      d[kk] = d[kk] + np.float32(off)
  return dict(p0=poses[0], p1=poses[1], tr=tr, rg=rg, tl=tl)


def mkpose(p):
  import jax.numpy as jnp
  from waymax.datatypes import observation as o
  return o.ObjectPose2D.from_center_and_yaw(
      xy=jnp.asarray(p['xy']), yaw=jnp.asarray(p['yaw']), valid=jnp.asarray(p['valid']))


def tf():
  def make():
    import jax
    from waymax.datatypes import observation as o
    def run(p0, p1, tr, rg, tl):
      a, b = mkpose(p0), mkpose(p1)
      comb = o.combine_two_object_pose_2d(src_pose=a, dst_pose=b)
      back = o.combine_two_object_pose_2d(src_pose=b, dst_pose=a)
      again = o.ObjectPose2D.from_transformation(a.matrix, a.delta_yaw, a.valid)
      default = o.ObjectPose2D.from_transformation(a.matrix, a.delta_yaw)
      at = o.transform_trajectory(tr, a)
      return dict(a=a, b=b, comb=comb, back=back, again=again, default=default, tr=at,
                  rg=o.transform_roadgraph_points(rg, a),
                  tl=o.transform_traffic_lights(tl, a),
                  chain=o.transform_trajectory(at, comb),
                  direct=o.transform_trajectory(tr, b),
                  tr_b=o.transform_trajectory(at, back),
                  rot=a.rotation_matrix, trans=a.translation_vector)
    return jax.jit(run)
  return envs.cached('c10tf', make)


@R.law(obs_parts(), quick=220, name='datatype transforms',
       rule='non-trivial: a valid and rotated pose')
def law_dt(c):
  args = [{k: np.asarray(v) for k, v in c[p].items()} for p in ('p0', 'p1')]
  out = tf()(*args, gens.to_traj(c['tr']), gens.to_rg(c['rg']), gens.to_tl(c['tl']))
  p0, p1 = c['p0'], c['p1']
  t = tol(p0['xy'], p1['xy'], c['tr']['x'], c['rg']['x'])
  a = out['a']
  eq(np.asarray(a.original_xy), p0['xy'], 'original_xy')
  eq(np.asarray(a.original_yaw), p0['yaw'], 'original_yaw')
  eq(np.asarray(a.valid), p0['valid'], 'pose valid')
  close(a.delta_yaw, -p0['yaw'], 'delta_yaw', 1e-6)
  eq(np.asarray(out['rot']), np.asarray(a.matrix)[..., :2, :2], 'rotation_matrix')
  eq(np.asarray(out['trans']), np.asarray(a.matrix)[..., :2, 2], 'translation_vector')
  g = out['again']
  close(g.original_xy, p0['xy'], 'from_transformation xy', 4 * t)
  close(g.original_yaw, p0['yaw'], 'from_transformation yaw', 1e-6)
  eq(np.asarray(g.matrix), np.asarray(a.matrix), 'from_transformation matrix')
  eq(np.asarray(g.valid), p0['valid'], 'from_transformation valid')
  require(np.asarray(out['default'].valid).all(), 'default valid')

  def check(tr, exp_pose, src, what, pv, mult=1.0):
    tr = gens.traj_np(tr)
    k = src['x'].ndim - exp_pose['yaw'].ndim
    x, y = into(ex(exp_pose['xy'][..., 0], k), ex(exp_pose['xy'][..., 1], k),
                ex(exp_pose['yaw'], k), src['x'], src['y'])
    close(tr['x'], x, what + ' x', mult * t)
    close(tr['y'], y, what + ' y', mult * t)
    vx, vy = into(0, 0, ex(exp_pose['yaw'], k), src['vel_x'], src['vel_y'])
    close(tr['vel_x'], vx, what + ' vel_x', 3e-4)
    close(tr['vel_y'], vy, what + ' vel_y', 3e-4)
    close(ref.angdiff(tr['yaw'], src['yaw'] - ex(exp_pose['yaw'], k)),
          np.zeros(x.shape), what + ' yaw', 2e-5)
    for f in ('z', 'length', 'width', 'height', 'timestamp_micros'):
      eq(tr[f], src[f], f'{what} {f}')
    eq(tr['valid'], src['valid'] & pv.reshape(pv.shape + (1,) * k), what + ' valid')

  both = p0['valid'] & p1['valid']
  check(out['tr'], p0, c['tr'], 'transform_trajectory', p0['valid'])
  check(out['direct'], p1, c['tr'], 'transform_trajectory', p1['valid'])
  check(out['chain'], p1, c['tr'], 'chained pose', both, 12)
  zero = dict(xy=0 * p0['xy'], yaw=0 * p0['yaw'])
  del zero
  rg, src = out['rg'], c['rg']
  x, y = into(p0['xy'][..., :1], p0['xy'][..., 1:], p0['yaw'][..., None], src['x'], src['y'])
  close(rg.x, x, 'roadgraph x', t)
  close(rg.y, y, 'roadgraph y', t)
  x, y = into(0, 0, p0['yaw'][..., None], src['dir_x'], src['dir_y'])
  close(rg.dir_x, x, 'roadgraph dir_x', 1e-5)
  close(rg.dir_y, y, 'roadgraph dir_y', 1e-5)
  for f in ('z', 'dir_z', 'types', 'ids'):
    eq(np.asarray(getattr(rg, f)), src[f], f'roadgraph {f}')
  eq(np.asarray(rg.valid), src['valid'] & p0['valid'][..., None], 'roadgraph valid')
  tl, src = out['tl'], c['tl']
  x, y = into(ex(p0['xy'][..., 0], 2), ex(p0['xy'][..., 1], 2), ex(p0['yaw'], 2), src['x'], src['y'])
  close(tl.x, x, 'light x', t)
  close(tl.y, y, 'light y', t)
  for f in ('z', 'state', 'lane_ids'):
    eq(np.asarray(getattr(tl, f)), src[f], f'light {f}')
  eq(np.asarray(tl.valid), src['valid'] & p0['valid'][..., None, None], 'light valid')
  # combined pose of a pose with itself's inverse direction
  ma = np.asarray(out['comb'].matrix).astype(float) @ np.asarray(out['back'].matrix).astype(float)
  close(ma, np.broadcast_to(np.eye(3), ma.shape), 'there and back', 12 * t)
  eq(np.asarray(out['comb'].valid), both, 'combined valid')
  close(ref.angdiff(out['comb'].delta_yaw, p0['yaw'] - p1['yaw']),
        np.zeros(p0['yaw'].shape), 'combined delta_yaw', 1e-5)
  return ['pose'] if (p0['valid'] & (np.abs(p0['yaw']) > .01)).any() else []
