"""Generators.  Every random choice is a Hypothesis draw (bulk data is drawn as
one byte string and decoded), so cases shrink and replay."""
import numpy as np
from hypothesis import strategies as st

F32 = np.float32
PI = np.pi


class Src:
  """Decodes a drawn byte string into arrays; zero bytes decode to 'simple'."""

  def __init__(self, draw, nbytes):
    self.draw = draw
    self.buf = draw(st.binary(min_size=nbytes, max_size=nbytes))
    self.pos = 0

  def u16(self, n):
    raw = self.buf[self.pos:self.pos + 2 * n]
    self.pos += 2 * n
    if len(raw) < 2 * n:
      extra = self.draw(st.binary(min_size=2 * n - len(raw), max_size=2 * n - len(raw)))
      raw = raw + extra
    return np.frombuffer(raw, dtype='<u2').astype(np.int64)

  def u8(self, n):
    raw = self.buf[self.pos:self.pos + n]
    self.pos += n
    if len(raw) < n:
      raw = raw + self.draw(st.binary(min_size=n - len(raw), max_size=n - len(raw)))
    return np.frombuffer(raw, dtype=np.uint8).astype(np.int64)

  def sym(self, shape, scale, quantum=None):
    """Floats in [-scale, scale]; 0 bytes -> 0."""
    n = int(np.prod(shape))
    v = self.u16(n)
    z = np.where(v % 2 == 0, v // 2, -(v + 1) // 2) / 32768.0
    out = z * scale
    if quantum:
      out = np.round(out / quantum) * quantum
    return out.reshape(shape).astype(F32)

  def unit(self, shape, lo, hi, quantum=None):
    n = int(np.prod(shape))
    out = lo + (hi - lo) * self.u16(n) / 65535.0
    if quantum:
      out = lo + np.round((out - lo) / quantum) * quantum
    return out.reshape(shape).astype(F32)

  def ints(self, shape, lo, hi):
    """Ints in [lo, hi]."""
    n = int(np.prod(shape))
    return (lo + self.u16(n) % (hi - lo + 1)).reshape(shape)

  def bits(self, shape, p_true_256=128):
    """Booleans, 0 byte -> True."""
    n = int(np.prod(shape))
    return (self.u8(n) < p_true_256).reshape(shape)


YAWS = [0.0, PI / 2, -PI / 2, PI, -PI, 3.1415, -3.1415, 0.785398, 3.2, -3.3, 6.0]


class SeedSrc(Src):
  """The same, expanded from one drawn seed: for contents too large to draw."""

  def __init__(self, draw, nbytes=0):
    self.r = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))

  def u16(self, n):
    return self.r.randint(0, 65536, n)

  def u8(self, n):
    return self.r.randint(0, 256, n)


def validity(draw, src, N, T):
  """Per-object validity patterns: all, none, appears, disappears, gap, random."""
  out = np.zeros((N, T), bool)
  kinds = src.u8(N) % 8
  a = src.u8(N)
  b = src.u8(N)
  rnd = src.bits((N, T), 170)
  for i in range(N):
    k = kinds[i]
    if k in (0, 1, 6):
      out[i] = True
    elif k == 2:
      out[i] = False
    elif k == 3:
      out[i, a[i] % T:] = True
    elif k == 4:
      out[i, :1 + a[i] % T] = True
    elif k == 5:
      out[i] = True
      s, e = sorted((a[i] % T, b[i] % T))
      out[i, s:e + 1] = False
    else:
      out[i] = rnd[i]
  return out


def trajectory(draw, N, T, mode=None, valid=None, src=None, spread=30.0,
               invalid_fill=None):
  """Dict of numpy arrays for a Trajectory of shape (N, T).

  mode 'smooth': unicycle-like motion; 'wild': every field independent;
  'lattice': positions and sizes on a coarse grid (ties, exact contacts).
  """
  if mode is None:
    mode = draw(st.sampled_from(['smooth', 'wild', 'lattice']))
  if src is None:
    src = Src(draw, 2 * (N * T * 7 + 12 * N) + N * T + 3 * N)
  out = {}
  if mode == 'smooth':
    x0 = src.sym((N, 1), spread)
    y0 = src.sym((N, 1), spread)
    yaw0 = src.sym((N, 1), PI)
    sp0 = src.unit((N, 1), 0, 15)
    acc = src.sym((N, 1), 5)
    rate = src.sym((N, 1), 1.0)
    t = np.arange(T)[None] * 0.1
    speed = np.maximum(sp0 + acc * t, 0)
    yaw = (yaw0 + rate * t + PI) % (2 * PI) - PI
    x = x0 + np.concatenate([np.zeros((N, 1)), np.cumsum(speed * np.cos(yaw) * .1, 1)[:, :-1]], 1)
    y = y0 + np.concatenate([np.zeros((N, 1)), np.cumsum(speed * np.sin(yaw) * .1, 1)[:, :-1]], 1)
    out.update(x=x, y=y, yaw=yaw, vel_x=speed * np.cos(yaw), vel_y=speed * np.sin(yaw))
    out['z'] = np.broadcast_to(src.sym((N, 1), 5), (N, T)) + 0.01 * t
  else:
    q = 0.5 if mode == 'lattice' else None
    sc = spread if mode == 'wild' else 6.0
    out.update(x=src.sym((N, T), sc, q), y=src.sym((N, T), sc, q),
               z=src.sym((N, T), 8, q), vel_x=src.sym((N, T), 20, q),
               vel_y=src.sym((N, T), 20, q))
    if mode == 'wild':
      kind = src.u8(3)
      out['yaw'] = src.sym((N, T), 11.0 if kind[0] % 4 == 3 else 4.0)
      if kind[1] % 4 == 3:
        out['vel_x'], out['vel_y'] = 4 * out['vel_x'], 4 * out['vel_y']
      if kind[2] % 4 == 3:
        out['z'] = 60 * out['z']
    else:
      out['yaw'] = np.asarray(YAWS)[src.ints((N, T), 0, len(YAWS) - 1)]
  q = 0.5 if mode == 'lattice' else None
  for name, hi in (('length', 8.0), ('width', 3.0), ('height', 3.0)):
    out[name] = np.broadcast_to(src.unit((N, 1), 0.5, hi, q), (N, T)).copy()
  if mode == 'wild' and src.u8(1)[0] % 4 == 3:  # trucks next to pedestrians
    for name in ('length', 'width', 'height'):
      out[name][::2] *= 2.5
  if mode == 'wild' and src.u8(1)[0] % 3 == 0:  # boxes that are measured anew
    for name in ('length', 'width', 'height'):
      out[name] = out[name] * src.unit((N, T), .5, 1.5)
  out['valid'] = validity(draw, src, N, T) if valid is None else np.asarray(valid)
  t_off = src.ints((), 0, 50000) + (0, 0, 2**24, 2**31 - 2**24)[src.u8(1)[0] % 4]
  out['timestamp_micros'] = np.broadcast_to(
      np.arange(T) * 100000 + int(t_off), (N, T)).copy()
  for k in out:
    if k == 'valid':
      out[k] = np.asarray(out[k], bool)
    elif k == 'timestamp_micros':
      out[k] = np.asarray(out[k], np.int32)
    else:
      out[k] = np.asarray(out[k], F32)
  if invalid_fill is None:
    invalid_fill = draw(st.sampled_from(['keep', 'minus1']))
  if invalid_fill == 'minus1':
    inv = ~out['valid']
    for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'timestamp_micros'):
      out[k] = np.where(inv, -1, out[k]).astype(out[k].dtype)
  return out


def metadata(draw, N, traj_valid=None):
  src = Src(draw, 6 * N + 5)
  sdc = draw(st.integers(0, N - 1))
  ids = np.arange(N) * 7 + src.ints((N,), 0, 6) + (0, 0, 2**24, 2**31 - 2**12)[src.u8(1)[0] % 4]
  md = dict(
      ids=ids.astype(np.int32),
      object_types=np.asarray([1, 2, 3, 4, 1, 2, 0, -1], np.int32)[src.u8(N) % 8],
      is_sdc=np.arange(N) == sdc,
      is_modeled=src.bits((N,)),
      is_valid=(traj_valid.any(-1) if traj_valid is not None and draw(st.booleans())
                else src.bits((N,), 200)),
      objects_of_interest=src.bits((N,), 100),
      is_controlled=np.zeros((N,), bool))
  return md


def roadgraph(draw, P, spread=30.0, mode=None, src=None, edge_bias=True,
              big_ids=False):
  if mode is None:
    mode = draw(st.sampled_from(['random', 'lattice', 'polyline']))
  if src is None:
    src = Src(draw, 2 * P * 9 + 4 * P)
  q = 0.5 if mode == 'lattice' else None
  if mode == 'polyline':
    nseg = 1 + int(src.u8(1)[0] % 3)
    x, y, dx, dy = (np.zeros(P) for _ in range(4))
    ids = np.zeros(P, int)
    start = src.sym((nseg, 2), spread)
    ang = src.sym((nseg,), PI)
    curv = src.sym((nseg,), 0.15)
    seglen = -(-P // nseg)
    for s in range(nseg):
      sl = slice(s * seglen, min(P, (s + 1) * seglen))
      n = sl.stop - sl.start
      if n <= 0:
        continue
      a = ang[s] + curv[s] * np.arange(n)
      px = start[s, 0] + np.concatenate([[0], np.cumsum(np.cos(a))[:-1]])
      py = start[s, 1] + np.concatenate([[0], np.cumsum(np.sin(a))[:-1]])
      x[sl], y[sl], dx[sl], dy[sl] = px, py, np.cos(a), np.sin(a)
      ids[sl] = s + 1
    z = np.broadcast_to(src.sym((1,), 4), (P,))
    if draw(st.booleans()):  # stacked levels (overpass)
      z = src.sym((P,), 6, 3.0)
  else:
    sc = spread if mode == 'random' else 6.0
    x, y = src.sym((P,), sc, q), src.sym((P,), sc, q)
    z = src.sym((P,), 6, 3.0 if mode == 'lattice' else None)
    a = src.sym((P,), PI, PI / 4 if mode == 'lattice' else None)
    dx, dy = np.cos(a), np.sin(a)
    ids = src.ints((P,), 1, 3)
  t = src.u8(P)
  all_types = np.array([15, 16, 15, 16, 1, 2, 6, 14, 17, 18, 19, 3, 15, -1])
  types = all_types[t % len(all_types)] if edge_bias else t % 20
  valid = src.bits((P,), 200)
  allv = draw(st.sampled_from(['mixed', 'all', 'none', 'mixed', 'all']))
  if allv == 'all':
    valid = np.ones(P, bool)
  elif allv == 'none':
    valid = np.zeros(P, bool)
  if big_ids:
    ids = ids + draw(st.sampled_from([0, 2**24, 2**31 - 1000]))
  return dict(x=np.asarray(x, F32), y=np.asarray(y, F32), z=np.asarray(z, F32),
              dir_x=np.asarray(dx, F32), dir_y=np.asarray(dy, F32),
              dir_z=src.sym((P,), .3), types=np.asarray(types, np.int32),
              ids=np.asarray(ids, np.int32), valid=np.asarray(valid, bool))


def traffic_lights(draw, L, T):
  src = Src(draw, 2 * (3 * L * T) + 3 * L * T + 1)
  return dict(x=src.sym((L, T), 30), y=src.sym((L, T), 30), z=src.sym((L, T), 3),
              state=(src.u8(L * T) % 9).reshape(L, T).astype(np.int32),
              lane_ids=((src.u8(L * T) % 50).reshape(L, T) + (0, 0, 2**24, 2**31 - 100)[src.u8(1)[0] % 4]).astype(np.int32),
              valid=src.bits((L, T), 180))


def paths(draw, K, M, spread=30.0, mode=None):
  src = Src(draw, 2 * (3 * K * M + 4 * K + K * M) + 2 * K * M + 4 * K)
  if mode is None:
    mode = draw(st.sampled_from(['line', 'random', 'lattice']))
  if mode == 'line':
    s = src.sym((K, 1, 2), spread)
    a = src.sym((K, 1), PI) + src.sym((K, 1), 0.1) * np.arange(M)
    step = src.unit((K, 1), 0.5, 4.0)
    x = s[:, :, 0] + np.cumsum(step * np.cos(a), 1) - step * np.cos(a[:, :1])
    y = s[:, :, 1] + np.cumsum(step * np.sin(a), 1) - step * np.sin(a[:, :1])
    arc = np.broadcast_to(step * np.arange(M), (K, M))
  else:
    q = 1.0 if mode == 'lattice' else None
    x, y = src.sym((K, M), 12, q), src.sym((K, M), 12, q)
    arc = np.cumsum(src.unit((K, M), 0, 3, 1.0 if mode == 'lattice' else None), 1)
  valid = src.bits((K, M), 220)
  prefix = src.u8(K) % (M + 1)
  if draw(st.booleans()):
    valid = np.arange(M)[None] < (M - prefix[:, None])
  return dict(x=np.asarray(x, F32), y=np.asarray(y, F32),
              z=src.sym((K, M), 9).astype(F32),
              ids=src.ints((K, M), 0, 99).astype(np.int32),
              valid=np.asarray(valid, bool),
              arc_length=np.asarray(arc, F32),
              on_route=src.bits((K, 1), 150))


@st.composite
def scenario(draw, N=None, T=None, P=8, L=2, K=None, M=6, mode=None, shapes=None,
             sim='copy', big_ids=False):
  """Full scenario dict: log/sim trajectory, lights, metadata, map, paths."""
  if shapes is not None:
    N, T = draw(st.sampled_from(shapes))
  log = trajectory(draw, N, T, mode=mode)
  sc = dict(log=log, md=metadata(draw, N, log['valid']),
            rg=roadgraph(draw, P, big_ids=big_ids), tl=traffic_lights(draw, L, T),
            timestep=0)
  sc['paths'] = paths(draw, K, M) if K else None
  if sim == 'copy':
    sc['sim'] = {k: v.copy() for k, v in log.items()}
  elif sim == 'free':
    sc['sim'] = trajectory(draw, N, T, mode=mode)
    for k in ('length', 'width', 'height', 'timestamp_micros'):
      if draw(st.booleans()):
        sc['sim'][k] = log[k].copy()
  return sc


@st.composite
def big(draw, N=128, T=91, P=1500, L=16, K=12, M=90, drift=3.0):
  """A driving scene of realistic size: objects, edges and routes along roads.

  The contents come from one drawn seed; what is drawn besides is what matters
  for the outcome (offset of the world, timestep, who is the SDC)."""
  r = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
  off = r.uniform(-1, 1, 2) * draw(st.sampled_from([0.0, 0.0, 2000.0]))
  R_ = 5
  start, ang, curv = r.uniform(-80, 80, (R_, 2)) + off, r.uniform(-PI, PI, R_), r.uniform(-.006, .006, R_)

  def on_road(k, s, lat):
    """Point and heading on road k at arc length s, lat to the left."""
    th = ang[k] + curv[k] * s
    m = ang[k] + curv[k] * s / 2
    ln = s * np.sinc(curv[k] * s / 2 / PI)
    return (start[k, 0] + ln * np.cos(m) - lat * np.sin(th),
            start[k, 1] + ln * np.sin(m) + lat * np.cos(th), th)

  def traj(s0, v, lat, kr, valid):
    s = s0[:, None] + np.cumsum(v, 1) * .1
    x, y, th = on_road(kr[:, None], s, lat)
    c = dict(x=x, y=y, z=np.repeat(r.uniform(-2, 2, (N, 1)), T, 1) + .01 * s,
             vel_x=v * np.cos(th), vel_y=v * np.sin(th), yaw=(th + PI) % (2 * PI) - PI)
    for f, lo, hi in (('length', .8, 9), ('width', .5, 2.6), ('height', 1, 3)):
      c[f] = np.repeat(r.uniform(lo, hi, (N, 1)), T, 1)
    c = {f: w.astype(F32) for f, w in c.items()}
    c['valid'] = valid
    c['timestamp_micros'] = np.repeat(np.arange(T, dtype=np.int32)[None] * 100000, N, 0)
    return c

  kr = r.randint(0, R_, N)
  s0 = r.uniform(0, 120, N)
  v = np.maximum(r.uniform(-2, 18, (N, 1)) + r.uniform(-1.5, 1.5, (N, 1)) * np.arange(T) * .1, 0)
  lat = r.choice([-9, -5.2, -1.8, 1.8, 5], (N, 1)) + r.uniform(-.6, .6, (N, 1))
  t0, t1 = r.randint(0, T, N), r.randint(0, T, N)
  kind = r.randint(0, 6, N)
  tt = np.arange(T)
  valid = np.select([kind[:, None] == 0, kind[:, None] == 1, kind[:, None] == 2],
                    [tt >= t0[:, None], tt <= t1[:, None], (tt < t0[:, None]) | (tt > t1[:, None])], True)
  log = traj(s0, v, lat + 0 * tt, kr, valid)
  sdc = draw(st.integers(0, N - 1))
  if draw(st.integers(0, 3)):
    log['valid'][sdc] = True
  sim = {f: w.copy() for f, w in log.items()}
  dev = traj(s0 + r.uniform(-1, 1, N) * drift, v * r.uniform(.7, 1.2, (N, 1)),
             lat + np.cumsum(r.uniform(-.02, .02, (N, 1)) * drift / 3 + 0 * tt, 1), kr, valid)
  for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
    sim[f] = dev[f]
  sim['valid'] = log['valid'] ^ (r.random_sample((N, T)) < .03)
  fill = r.randint(0, 2)
  for d in (log, sim):
    if fill:
      for f in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'timestamp_micros'):
        d[f] = np.where(d['valid'], d[f], -1).astype(d[f].dtype)
  # Map: per road two edges, two lane centres, a line; then scattered points.
  rows = []
  n = P // (R_ * 5)
  for k in range(R_):
    for j, (lt, ty, rev) in enumerate(((-7, 15, 0), (7, 15, 1), (0, 16, 0), (-3.5, 2, 0), (3.5, 6, 1))):
      s = np.linspace(-10, 220, n)
      x, y, th = on_road(k, s, lt)
      if rev:
        x, y, th = x[::-1], y[::-1], th[::-1] + PI
      rows.append((x, y, 0 * x + .01 * s, np.cos(th), np.sin(th), np.full(n, ty), np.full(n, 10 * k + j)))
  cols = [np.concatenate(c) for c in zip(*rows)]
  m = P - len(cols[0])
  extra = [r.uniform(-90, 90, m) + off[0], r.uniform(-90, 90, m) + off[1], r.uniform(-3, 3, m),
           np.ones(m), np.zeros(m), r.choice([1, 2, 17, 18, 19], m), 900 + np.arange(m)]
  cols = [np.concatenate([a, b]) for a, b in zip(cols, extra)]
  rg = dict(zip(('x', 'y', 'z', 'dir_x', 'dir_y', 'types', 'ids'), cols))
  rg = {f: w.astype(np.int32 if f in ('types', 'ids') else F32) for f, w in rg.items()}
  rg['dir_z'] = r.uniform(-.2, .2, P).astype(F32)
  rg['valid'] = r.random_sample(P) < draw(st.sampled_from([1.0, .9, .5]))
  tl = dict(x=r.uniform(-90, 90, (L, T)) + off[0], y=r.uniform(-90, 90, (L, T)) + off[1], z=r.uniform(-2, 2, (L, T)))
  tl = {f: w.astype(F32) for f, w in tl.items()}
  tl.update(state=r.randint(0, 9, (L, T)).astype(np.int32), lane_ids=r.randint(0, 50, (L, T)).astype(np.int32),
            valid=r.random_sample((L, T)) < .7)
  pk = np.where(np.arange(K) < K // 2, kr[sdc], r.randint(0, R_, K))
  gap = r.uniform(.5, 3, (K, 1))
  arc = gap * np.arange(M) + 0 * pk[:, None]
  x, y, _ = on_road(pk[:, None], s0[sdc] - 10 + arc, r.uniform(-9, 9, (K, 1)))
  paths_ = dict(x=x.astype(F32), y=y.astype(F32), z=r.uniform(-9, 9, (K, 1)).astype(F32) + np.zeros((K, M), F32), arc_length=arc.astype(F32),
                ids=r.randint(0, 99, (K, M)).astype(np.int32),
                valid=np.arange(M) < r.choice([M, M // 2, M // 5, 0], (K, 1), p=[.5, .2, .2, .1]),
                on_route=r.random_sample((K, 1)) < .4)
  md = dict(ids=r.permutation(5000)[:N].astype(np.int32), object_types=r.choice([1, 1, 1, 2, 3, 4, 0], N).astype(np.int32),
            is_sdc=np.arange(N) == sdc, is_modeled=r.random_sample(N) < .3,
            is_valid=log['valid'].any(-1), objects_of_interest=r.random_sample(N) < .2,
            is_controlled=np.zeros(N, bool))
  return dict(log=log, sim=sim, md=md, rg=rg, tl=tl, paths=paths_, timestep=draw(st.integers(0, T - 2)))


# ------------------------------------------------------------ to waymax ------
def to_traj(d):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.Trajectory(**{k: jnp.asarray(v) for k, v in d.items()})


def to_md(d):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.ObjectMetadata(**{k: jnp.asarray(v) for k, v in d.items()})


def to_rg(d):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.RoadgraphPoints(**{k: jnp.asarray(v) for k, v in d.items()})


def to_tl(d):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.TrafficLights(**{k: jnp.asarray(v) for k, v in d.items()})


def to_paths(d):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.Paths(**{k: jnp.asarray(v) for k, v in d.items()})


def to_state(sc, timestep=None):
  import jax.numpy as jnp
  from waymax import datatypes
  t = sc['timestep'] if timestep is None else timestep
  return datatypes.SimulatorState(
      sim_trajectory=to_traj(sc['sim']), log_trajectory=to_traj(sc['log']),
      log_traffic_light=to_tl(sc['tl']), object_metadata=to_md(sc['md']),
      timestep=jnp.asarray(t, jnp.int32),
      sdc_paths=None if sc.get('paths') is None else to_paths(sc['paths']),
      roadgraph_points=to_rg(sc['rg']))


def stack_cases(cases):
  """Stacks scenario dicts along a new leading batch axis."""
  out = {}
  for k in cases[0]:
    v = cases[0][k]
    if v is None:
      out[k] = None
    elif isinstance(v, dict):
      out[k] = {f: np.stack([c[k][f] for c in cases]) for f in v}
    else:
      out[k] = np.stack([np.asarray(c[k], np.int32) for c in cases])
  return out


def traj_np(t):
  return {k: np.asarray(getattr(t, k)) for k in (
      'x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros',
      'length', 'width', 'height')}


_JIT = {}


def jitted(key, make):
  """Caches a jitted callable per key."""
  import jax
  if key not in _JIT:
    _JIT[key] = jax.jit(make())
  return _JIT[key]
