"""C13: offroad is decided by the nearest road edge, on the documented side."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, eq, require, Violation

R = Registry('C13', 'Random, lattice and polyline maps (stacked levels, mixed '
             'types, partial validity, no edges at all), boxes around the edges; '
             'oracle: brute-force nearest valid edge in float64 with elevation '
             'differences doubled, side by cross products; ties and near-zero '
             'cross products accept either answer. Non-trivial: both signs are '
             'decided in the case, or non-edge points are nearer than the edge.',
             ['points sharing an id with a road edge are road edges and valid',
              'directions are unit tangents'])
P, N, T = 10, 3, 2


def fns():
  def make():
    import jax
    from waymax.metrics import roadgraph as m
    dist = m.compute_signed_distance_to_nearest_road_edge_point
    return dict(dist=jax.jit(dist),
                dist1=jax.jit(lambda q, r: dist(q, r, z_stretch=1.0)),
                off=jax.jit(m.is_offroad),
                metric=jax.jit(m.OffroadMetric().compute))
  return envs.cached('c13', make)


def fix_map(rg):
  edge = np.isin(rg['types'], (15, 16)) & rg['valid']
  rg['ids'] = np.where(edge, rg['ids'], 1000 + np.arange(len(edge))).astype(np.int32)
  return rg


@st.composite
def points_case(draw, nq=12):
  rg = fix_map(gens.roadgraph(draw, P))
  src = gens.Src(draw, 2 * (nq * 6) + 2 * nq)
  near = src.ints((nq,), 0, P - 1)
  # Small scales: the nearest point in the plane often is not the nearest one.
  sxy = draw(st.sampled_from([1.0, 1.0, 0.1, 0.03]))
  sz = draw(st.sampled_from([1.0, 1.0, 0.3, 0.1])) if sxy < 1 else 1.0
  for k in 'xy':
    rg[k] = (rg[k] * sxy).astype(np.float32)
  rg['z'] = (rg['z'] * sz).astype(np.float32)
  q = (np.stack([rg[k][near] for k in 'xyz'], -1) +
       src.sym((nq, 3), 1.0) * np.asarray([4 * max(sxy, .2), 4 * max(sxy, .2), 5 * sz]))
  if draw(st.integers(0, 3)) == 0:
    q = np.round(q * 2) / 2
  far = draw(st.sampled_from([0.0, 0.0, 4000.0]))
  rg['x'] = (rg['x'] + far).astype(np.float32)
  q[:, 0] += far
  return dict(rg=rg, q=np.asarray(q, np.float32), ang=float(src.sym((1,), 3)[0]),
              shift=src.sym((2,), 50), stretch=draw(st.booleans()),
              perm=draw(st.permutations(range(P))))


def outcomes(rg, q, stretch=2.0):
  """Per query: (min distance candidates, may be off, may be on, has edge)."""
  rg = ref.f64(rg)
  q = np.asarray(q, float)
  edge = np.isin(rg['types'], (15, 16)) & rg['valid']
  out = []
  big = np.abs(rg['x']).max() + np.abs(rg['y']).max() + np.abs(q).max() + 1
  for p in q:
    if not edge.any():
      out.append(([], False, True))
      continue
    dx, dy, dz = p[0] - rg['x'], p[1] - rg['y'], (p[2] - rg['z']) * stretch
    d = np.sqrt(dx**2 + dy**2 + dz**2)
    m = d[edge].min()
    tolr = 1e-6 * big + 1e-5
    cand = np.flatnonzero(edge & (d <= m + tolr * 2))
    off = on = False
    for i in cand:
      j = max(i - 1, 0)
      cr = [dx[i] * rg['dir_y'][i] - dy[i] * rg['dir_x'][i]]
      if rg['ids'][j] == rg['ids'][i]:
        cr.append(dx[i] * rg['dir_y'][j] - dy[i] * rg['dir_x'][j])
      c = min(cr)
      off |= c > -tolr
      on |= c < tolr
    out.append((np.hypot(dx[cand], dy[cand]), off, on))
  return out, big


@R.law(points_case(), quick=450, name='signed distance')
def signed(c):
  rg, q = c['rg'], c['q']
  exp, big = outcomes(rg, q, 2.0 if c['stretch'] else 1.0) if np.isin(
      rg['types'], (15, 16))[rg['valid']].any() else ([([], False, True)] * len(q), 1)
  f = fns()['dist' if c['stretch'] else 'dist1']
  got = np.asarray(f(q, gens.to_rg(rg)))
  require(got.shape == (len(q),), 'shape', got.shape)
  off = on = 0
  tol = 2e-6 * big + 1e-5
  for g, (ds, may_off, may_on), p in zip(got, exp, q):
    if not len(ds):
      require(not g > 0, 'off road without any road edge')
      continue
    require(np.abs(np.abs(g) - ds).min() <= tol or (may_off and may_on and g == 0),
            'magnitude', g, 'distance', ds, 'query', p)
    require(may_off or g <= tol, 'reported off road', g, 'query', p)
    require(may_on or g >= -tol, 'reported on road', g, 'query', p)
    require(may_on or g > 0 or ds.min() < tol, 'not off road', g, p)
    off += may_off and not may_on
    on += may_on and not may_off
  # Irrelevant points never influence the result.
  edge = np.isin(rg['types'], (15, 16)) & rg['valid']
  rg2 = {k: v.copy() for k, v in rg.items()}
  for k in ('x', 'y', 'z'):
    rg2[k][~edge] = q[0]['xyz'.index(k)]
  for k in ('dir_x', 'dir_y'):
    rg2[k][~edge] = -rg2[k][~edge]
  eq(np.asarray(f(q, gens.to_rg(rg2))), got, 'influenced by irrelevant points')
  lab = []
  if off and on:
    lab.append('both')
  if edge.any() and (~edge).any():
    lab.append('irrelevant')
  return lab


@st.composite
def scene(draw):
  b = draw(st.sampled_from([(), (), (2,)]))
  n = int(np.prod(b))
  scs = []
  for _ in range(n):
    sc = draw(gens.scenario(N=N, T=T, P=P, L=1, sim='free'))
    sc['rg'] = fix_map(sc['rg'])
    src = gens.Src(draw, 2 * (N * 4))
    near = src.ints((N,), 0, P - 1)
    t = draw(st.integers(0, T - 1)) if not scs else scs[0]['timestep']
    for k, s in (('x', 4), ('y', 4), ('z', 4)):
      sc['sim'][k][:, t] = sc['rg'][k][near] + src.sym((N,), s)
    if draw(st.booleans()):
      for a in (sc['sim'],):
        a['z'][:, t] = sc['rg']['z'][near]
    sc['timestep'] = t
    scs.append(sc)
  sc = gens.stack_cases(scs) if b else scs[0]
  return dict(sc=sc, b=b)


@R.law(scene(), quick=350, name='offroad metric',
       rule='non-trivial: a decided offroad and a decided on-road object')
def metric(c):
  sc = c['sc']
  res = fns()['metric'](gens.to_state(sc, sc['timestep'] if not c['b'] else int(np.ravel(sc['timestep'])[0])))
  val, valid = np.asarray(res.value), np.asarray(res.valid)
  n_obj = sc['sim']['x'].shape[-2]
  require(val.shape == c['b'] + (n_obj,), 'shape', val.shape)
  require(np.isin(val, [0., 1.]).all(), 'not an indicator', val)
  seen = set()
  for i in np.ndindex(c['b']):
    t = int(np.asarray(sc['timestep'])[i]) if c['b'] else int(sc['timestep'])
    rg = {k: v[i] for k, v in sc['rg'].items()}
    sim = {k: v[i][:, t] for k, v in sc['sim'].items()}
    cor = ref.corners(sim['x'], sim['y'], sim['length'], sim['width'], sim['yaw'])
    for o in range(n_obj):
      q = np.concatenate([cor[o], np.full((4, 1), sim['z'][o])], -1)
      edge = np.isin(rg['types'], (15, 16)) & rg['valid']
      if not edge.any():
        require(val[i][o] == 0, 'offroad without any road edge')
        continue
      exp, _ = outcomes(rg, q)
      must_off = any(f and not n for _, f, n in exp)
      must_on = all(n and not f for _, f, n in exp)
      require(not must_off or val[i][o] == 1, 'object', o, 'should be offroad')
      require(not must_on or val[i][o] == 0, 'object', o, 'should not be offroad')
      seen |= ({'off'} if must_off else set()) | ({'on'} if must_on else set())
      if sim['valid'][o]:
        require(valid[i][o], 'invalid result for a valid object')
  return ['both'] if len(seen) == 2 else []


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=3000))
  t = sc['timestep']
  if draw(st.booleans()):  # everyone on the level of the road
    sc['sim']['z'][:, t] = 0
    sc['rg']['z'][:] = 0
  edge = np.isin(sc['rg']['types'], (15, 16)) & sc['rg']['valid']
  sc['rg']['ids'] = np.where(edge, sc['rg']['ids'], 1000 + np.arange(3000)).astype(np.int32)
  return dict(sc=sc, b=())


@R.law(full_case(), quick=30, name='full-size scenes', rule='128 objects on 3000 map points')
def full_size(c):
  return metric(c)


def make_own():
  """The metrics of states that are each at their own timestep."""
  from waymax import config as C, metrics as M
  cfg = C.MetricsConfig(metrics_to_run=('offroad',))

  def f(s, _):
    return {k: (v.masked_value(), v.valid) for k, v in M.run_metrics(s, cfg).items()}
  return f


batching.own_timesteps(R, make_own)
