"""C09: overlap is the positive-area intersection of oriented boxes."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, eq, require, Violation

R = Registry('C09', 'Pairs of oriented boxes: random, near-contact (placed at a '
             'chosen small gap along a face normal or corner), nested, crossed, '
             'thin, on an exact lattice, and far from the origin; oracle: '
             'float64 polygon clipping and separating axes; cases within the '
             'float32 error of contact are skipped (exact-lattice contacts are '
             'not). Non-trivial: at least one decided overlapping and one '
             'decided separated pair.',
             ['boxes have positive length and width'])


def fns():
  def make():
    import jax
    from waymax.utils import geometry
    return dict(has=jax.jit(geometry.has_overlap),
                pair=jax.jit(geometry.compute_pairwise_overlaps))
  return envs.cached('c09', make)


@st.composite
def pairs(draw, n=16):
  src = gens.Src(draw, 2 * n * 14 + 4 * n)
  off = draw(st.sampled_from([0.0, 0.0, 400.0, -8000.0]))
  a = np.zeros((n, 5))
  b = np.zeros((n, 5))
  a[:, :2] = src.sym((n, 2), 6)
  for z in (a, b):
    z[:, 2] = src.unit((n,), .2, 10)
    z[:, 3] = src.unit((n,), .2, 4)
    z[:, 4] = src.sym((n,), 4.0)
  yq = src.u8(n) % 4
  grid = np.asarray(gens.YAWS)[src.ints((n,), 0, len(gens.YAWS) - 1)]
  a[:, 4] = np.where(yq == 1, grid, a[:, 4])
  b[:, 4] = np.where(yq == 1, grid, np.where(yq == 2, a[:, 4], b[:, 4]))
  how = src.u8(n) % 5
  gap = src.sym((n,), 0.3)
  side = src.u8(n) % 4
  along = src.sym((n,), 1.0)
  for i in range(n):
    if how[i] in (0, 1):     # random
      b[i, :2] = a[i, :2] + src.sym((2,), 8.0)
    elif how[i] == 2:        # near contact along a face of a
      ang = a[i, 4] + side[i] * np.pi / 2
      nrm = np.array([np.cos(ang), np.sin(ang)])
      tan = np.array([-nrm[1], nrm[0]])
      half = a[i, 2 + side[i] % 2] / 2
      ext = np.max(ref.corners(0, 0, b[i, 2], b[i, 3], b[i, 4]) @ nrm)
      b[i, :2] = a[i, :2] + nrm * (half + ext + gap[i]) + tan * along[i] * 4
    elif how[i] == 3:        # corner of b at a point near a corner of a
      ca = ref.corners(*a[i])[side[i]]
      cb = ref.corners(0, 0, b[i, 2], b[i, 3], b[i, 4])[(side[i] + 2) % 4]
      d = ca - a[i, :2]
      b[i, :2] = ca - cb + d / np.linalg.norm(d) * gap[i]
    else:                    # (almost) concentric, nested or crossed
      b[i, :2] = a[i, :2] + gap[i] * .1
  a[:, 0] += off
  b[:, 0] += off
  a[:, 1] -= off
  b[:, 1] -= off
  return dict(a=np.asarray(a, np.float32), b=np.asarray(b, np.float32))


def margin(a, b):
  m = np.maximum(np.abs(a[..., :2]).max(-1), np.abs(b[..., :2]).max(-1))
  yaw = np.abs(a[..., 4]) + np.abs(b[..., 4])
  return 2e-6 * (m + 12) + 2e-6 * yaw * 6 + 1e-5


def decide(a, b):
  gap = ref.box_gap(a, b)
  m = margin(a, b)
  return gap < 0, np.abs(gap) > m, gap


@R.law(pairs(), quick=450, name='has_overlap')
def law_has(c):
  a, b = c['a'], c['b']
  got = np.asarray(fns()['has'](a, b))
  exp, sure, gap = decide(a, b)
  for i in np.argwhere(sure & (got != exp))[:, 0]:
    raise Violation(f'boxes {a[i].tolist()} {b[i].tolist()}: reported '
                    f'{bool(got[i])}, separation {gap[i]:.6g}')
  rev = np.asarray(fns()['has'](b, a))
  require((rev == exp)[sure].all(), 'not symmetric')
  # Independent cross-check of the oracle itself and of positive area.
  i = int(np.argmin(np.where(sure, np.abs(gap), np.inf)))
  if sure[i]:
    area = ref.poly_area_intersection(ref.corners(*np.asarray(a[i], float)),
                                      ref.corners(*np.asarray(b[i], float)))
    require((area > 1e-12) == bool(got[i]), 'area', area, 'reported', got[i])
  # Rigid motion of both boxes, and half-turns of one, do not change the answer.
  ang, tx, ty = 0.7, 13.0, -5.0
  def mv(z):
    z = np.asarray(z, float).copy()
    z[:, 0], z[:, 1] = ref.rigid(z[:, 0], z[:, 1], ang, tx, ty)
    z[:, 4] += ang
    return np.asarray(z, np.float32)
  far = np.abs(gap) > 4 * margin(a, b) + 2e-6 * np.abs(a[:, 0])
  require((np.asarray(fns()['has'](mv(a), mv(b))) == exp)[far].all(),
          'changed by a rigid motion')
  a2 = a.copy()
  a2[:, 4] += np.float32(np.pi)
  require((np.asarray(fns()['has'](a2, b)) == exp)[far].all(), 'half turn')
  return ['both'] if (exp & sure).any() and (~exp & sure).any() else []


@st.composite
def lattice(draw, n=16):
  src = gens.Src(draw, 2 * n * 8)
  a, b = np.zeros((n, 5)), np.zeros((n, 5))
  a[:, :2] = src.ints((n, 2), -4, 4) * .5
  b[:, :2] = src.ints((n, 2), -4, 4) * .5
  for z in (a, b):
    z[:, 2:4] = 0.5 * src.ints((n, 2), 1, 8)
  return dict(a=np.asarray(a, np.float32), b=np.asarray(b, np.float32))


@R.law(lattice(), quick=150, name='exact contact',
       rule='axis-aligned boxes on a half-metre lattice, decided exactly; '
            'non-trivial: some pair touches without overlapping')
def law_lattice(c):
  a, b = c['a'], c['b']
  got = np.asarray(fns()['has'](a, b))
  d = np.abs(a[:, :2] - b[:, :2])
  h = (a[:, 2:4] + b[:, 2:4]) / 2
  eq(got, (d < h).all(-1), 'axis-aligned overlap')
  touch = (d <= h).all(-1) & ~(d < h).all(-1)
  return ['touch'] if touch.any() else []


@st.composite
def scene(draw, shapes=((6,), (1,), (2, 4), (2, 2, 3))):
  shape = draw(st.sampled_from(shapes))
  n = int(np.prod(shape))
  c = draw(pairs(n=8)) if n <= 8 else draw(pairs(n=n))
  boxes = np.concatenate([c['a'], c['b']])[:n] if n > 1 else c['a'][:1]
  k = draw(st.integers(0, 3))
  src = gens.Src(draw, 4 * n)
  if k == 0:  # pairs adjacent in the list
    boxes = np.stack([c['a'], c['b']], 1).reshape(-1, 5)[:n]
  if k == 1 and n > 1:  # duplicates
    boxes[-1] = boxes[0]
  T = draw(st.sampled_from([1, 3]))
  return dict(boxes=boxes.reshape(shape + (5,)).astype(np.float32), T=T,
              t=draw(st.integers(0, T - 1)), valid=src.bits(shape, 190),
              perm=draw(st.permutations(range(shape[-1]))),
              other=src.sym(shape, 8))


@R.law(scene(), quick=400, name='pairwise and metric',
       rule='non-trivial: a decided overlap between two valid objects')
def law_scene(c):
  import jax.numpy as jnp
  from waymax import datatypes, metrics
  boxes, valid = c['boxes'], c['valid']
  n = boxes.shape[-2]
  A, B = boxes[..., :, None, :], boxes[..., None, :, :]
  exp, sure, _ = decide(*np.broadcast_arrays(A, B))
  off = ~np.eye(n, dtype=bool)
  exp = exp & off
  sure = sure | ~off
  got = np.asarray(fns()['pair'](boxes))
  eq(got.shape, exp.shape, 'shape')
  require((got == exp)[sure].all(), 'pairwise overlaps differ', got.tolist(),
          exp.tolist())
  require(not got[..., np.arange(n), np.arange(n)].any(), 'self overlap')
  p = np.asarray(c['perm'])
  got_p = np.asarray(fns()['pair'](boxes[..., p, :]))
  require((got_p == exp[..., p, :][..., p])[sure[..., p, :][..., p]].all(),
          'reordering objects changes overlaps')
  # Metric at the current simulated time.
  T, t = c['T'], c['t']
  shape = valid.shape
  tr = {}
  for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height'):
    tr[k] = np.zeros(shape + (T,), np.float32)
    tr[k][...] = c['other'][..., None]
  for i, k in enumerate(('x', 'y', 'length', 'width', 'yaw')):
    tr[k][..., t] = boxes[..., i]
  tr['length'], tr['width'] = (np.broadcast_to(tr[k][..., t:t + 1], shape + (T,)).copy()
                               for k in ('length', 'width'))
  tr['valid'] = np.zeros(shape + (T,), bool)
  tr['valid'][..., t] = valid
  tr['timestamp_micros'] = np.zeros(shape + (T,), np.int32)
  log = {k: np.roll(v, 1, -2) if v.ndim > 1 else v for k, v in tr.items()}
  sc = minimal_state(tr, log, t)
  def make():
    import jax
    return jax.jit(metrics.OverlapMetric().compute)
  res = envs.cached('c09m', make)(sc)
  eq(np.asarray(res.valid), valid, 'metric validity')
  vv = exp & valid[..., None, :]
  e = vv.any(-1)
  # An object is decided when every valid other is decided, or one sure overlap.
  dec = (sure | ~valid[..., None, :]).all(-1) | (vv & sure).any(-1)
  val = np.asarray(res.value)
  require(np.isin(val, [0., 1.]).all(), 'metric not an indicator', val)
  bad = dec & (val != e)
  require(not bad.any(), 'overlap metric', val.tolist(), 'expected', e.tolist(),
          'valid', valid.tolist())
  res2 = metrics.OverlapMetric().compute_overlap(
      datatypes.dynamic_slice(sc.sim_trajectory, t, 1, -1)
      ) if c['other'].sum() > 0 else None
  if res2 is not None:
    eq(np.asarray(res2.value), val, 'compute_overlap')
  return ['overlap'] if (e & valid & dec).any() else []


def minimal_state(sim, log, t):
  import jax.numpy as jnp
  from waymax import datatypes
  shape = sim['x'].shape
  b, n, T = shape[:-2], shape[-2], shape[-1]
  md = dict(ids=np.broadcast_to(np.arange(n, dtype=np.int32), b + (n,)),
            object_types=np.ones(b + (n,), np.int32),
            is_sdc=np.broadcast_to(np.arange(n) == 0, b + (n,)),
            is_modeled=np.zeros(b + (n,), bool), is_valid=np.ones(b + (n,), bool),
            objects_of_interest=np.zeros(b + (n,), bool),
            is_controlled=np.zeros(b + (n,), bool))
  rg = dict(x=np.zeros(b + (2,), np.float32), ids=np.zeros(b + (2,), np.int32))
  for k in ('y', 'z', 'dir_x', 'dir_y', 'dir_z'):
    rg[k] = rg['x']
  rg['types'], rg['valid'] = rg['ids'], np.zeros(b + (2,), bool)
  tl = dict(x=np.zeros(b + (1, T), np.float32), y=np.zeros(b + (1, T), np.float32),
            z=np.zeros(b + (1, T), np.float32), state=np.zeros(b + (1, T), np.int32),
            lane_ids=np.zeros(b + (1, T), np.int32), valid=np.zeros(b + (1, T), bool))
  return datatypes.SimulatorState(
      sim_trajectory=gens.to_traj(sim), log_trajectory=gens.to_traj(log),
      log_traffic_light=gens.to_tl(tl), object_metadata=gens.to_md(md),
      timestep=jnp.asarray(t, jnp.int32), sdc_paths=None,
      roadgraph_points=gens.to_rg(rg))


@R.law(scene(shapes=((40,), (128,))), quick=30, name='full-size scenes', rule='up to 128 objects')
def law_full(c):
  return law_scene(c)


def make_own():
  """The metrics of states that are each at their own timestep."""
  from waymax import config as C, metrics as M
  cfg = C.MetricsConfig(metrics_to_run=('overlap',))

  def f(s, _):
    return {k: (v.masked_value(), v.valid) for k, v in M.run_metrics(s, cfg).items()}
  return f


batching.own_timesteps(R, make_own)
