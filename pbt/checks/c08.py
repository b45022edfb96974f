"""C08: discretization is a faithful grid."""
import itertools
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from harness import Registry, eq, close, require, Violation
from checks import c06

R = Registry('C08', 'Random bounds, per-dimension bin counts, indices and '
             'continuous values (in and out of range, any batch shape); every '
             'case enumerates its whole grid; oracle: explicit product grid, '
             'nearest bin outside a tie margin; non-trivial: more than one '
             'dimension with differing bin counts, or a value off the grid.')


@st.composite
def grid(draw, maxbins=7):
  D = draw(st.integers(1, 3))
  bins = [draw(st.integers(1, maxbins)) for _ in range(D)]
  src = gens.Src(draw, 4 * D)
  lo = src.sym((D,), 10, 0.25)
  width = src.unit((D,), 0.5, 20, 0.25)
  return dict(lo=lo, hi=(lo + width).astype(np.float32), bins=np.asarray(bins, np.int32))


def make(g):
  import jax.numpy as jnp
  from waymax import dynamics
  return dynamics.Discretizer(jnp.asarray(g['lo']), jnp.asarray(g['hi']), jnp.asarray(g['bins']))


def axes(g):
  return [np.linspace(float(l), float(h), int(b) + 1)
          for l, h, b in zip(g['lo'], g['hi'], g['bins'])]


def step_of(g):
  return (g['hi'].astype(np.float64) - g['lo']) / g['bins']


@R.law(grid(), quick=250, rule='complete enumeration of a random grid')
def grid_bijection(g):
  import jax.numpy as jnp
  d = make(g)
  n = int(np.prod(g['bins'] + 1))
  assert n <= 512
  idx = np.arange(n, dtype=np.int32)[:, None]
  # Padded to a fixed length by repetition (one compilation per dimension count).
  full = np.resize(idx[:, 0], 512)[:, None].astype(np.int32)
  allval = np.asarray(d.make_continuous(jnp.asarray(full)))
  require(allval.shape == (512, len(g['bins'])), f'values shape {allval.shape}')
  val = allval[:n]
  want = np.asarray(list(itertools.product(*axes(g))))
  tol = 1e-4 * step_of(g) + 1e-5
  # Every grid combination exactly once, whatever the enumeration order.
  cell = np.rint((val - g['lo']) / step_of(g)).astype(int)
  close(val, g['lo'] + cell * step_of(g), 'value on the grid', atol=np.broadcast_to(tol, val.shape))
  require((cell >= 0).all() and (cell <= g['bins']).all(), 'grid value out of bounds')
  require(len({tuple(r) for r in cell}) == n == len(want), 'grid values repeated or missing')
  back = np.asarray(d.discretize(jnp.asarray(allval)))[:n]
  eq(back, idx, 'discretize(make_continuous(i))')
  require(np.issubdtype(back.dtype, np.integer), f'index dtype {back.dtype}')
  return ['multi'] if len(set(g['bins'].tolist())) > 1 else (['single'] if n > 2 else [])


@st.composite
def values(draw):
  g = draw(grid())
  shape = draw(st.sampled_from([(5,), (2, 3), (1,), (2, 1, 2)]))
  D = len(g['bins'])
  src = gens.Src(draw, 2 * int(np.prod(shape)) * D)
  over = draw(st.sampled_from([0.0, 0.3, 5.0]))
  w = g['hi'] - g['lo']
  v = g['lo'] - over * w + src.unit(shape + (D,), 0, 1) * w * (1 + 2 * over)
  return dict(g=g, v=v.astype(np.float32))


@R.law(values(), quick=350, rule='continuous values to nearest grid value')
def nearest_bin(c):
  import jax.numpy as jnp
  g, v = c['g'], c['v']
  d = make(g)
  idx = d.discretize(jnp.asarray(v))
  require(idx.shape == v.shape[:-1] + (1,), f'index shape {idx.shape}')
  require((np.asarray(idx) >= 0).all() and
          (np.asarray(idx) < np.prod(g['bins'] + 1)).all(), 'index out of range')
  got = np.asarray(d.make_continuous(idx), np.float64)
  require(got.shape == v.shape, f'continuous shape {got.shape}')
  cl = np.clip(v.astype(np.float64), g['lo'], g['hi'])
  step = step_of(g)
  err = np.abs(got - cl)
  require((err <= step / 2 * (1 + 1e-4) + 1e-4).all(),
          f'not the nearest grid value: {v} -> {got}')
  return ['off'] if (err > 1e-3).any() else []


@st.composite
def fine(draw):
  D = draw(st.sampled_from([1, 1, 2, 3]))
  top = {1: 30000, 2: 3000, 3: 250}[D]
  bins = [draw(st.one_of(st.integers(1, top), st.sampled_from([127, 128, 249, 254, 255, 256, 257])))
          for _ in range(D)]
  src = gens.Src(draw, 300)
  lo = src.sym((D,), 10, 0.25)
  g = dict(lo=lo, hi=(lo + src.unit((D,), 0.5, 20, 0.25)).astype(np.float32),
           bins=np.asarray(np.minimum(bins, top), np.int32))
  n = int(np.prod(g['bins'].astype(np.int64) + 1))
  u = src.unit((8,), 0, 1).astype(np.float64)
  idx = np.unique(np.r_[0, n - 1, np.minimum((u * n).astype(np.int64), n - 1)])
  v = g['lo'] + (src.unit((8, D), 0, 1) * 1.2 - .1) * (g['hi'] - g['lo'])
  return dict(g=g, idx=np.resize(idx, 10).astype(np.int32), v=v.astype(np.float32))


@R.law(fine(), quick=200, name='fine grids', rule='more than 255 bins in some dimension')
def fine_grids(c):
  import jax.numpy as jnp
  g = c['g']
  d = make(g)
  step = step_of(g)
  idx = c['idx'][:, None]
  val = np.asarray(d.make_continuous(jnp.asarray(idx)))
  # Values are on the grid; the first index and the last are opposite corners.
  rel = (val.astype(np.float64) - g['lo']) / step
  cell = np.rint(rel)
  eps = 4e-6 * (np.abs(g['lo']) + np.abs(g['hi']))
  close(val, g['lo'] + cell * step, 'value on the grid', atol=np.broadcast_to(eps, val.shape))
  require((cell >= 0).all() and (cell <= g['bins']).all(), 'grid value out of bounds')
  require(len({tuple(r) for r in cell}) == len(set(c['idx'].tolist())), 'grid values repeated', val)
  eq(np.asarray(d.discretize(jnp.asarray(val))), idx, 'discretize(make_continuous(i))')
  k = np.asarray(d.discretize(jnp.asarray(c['v'])))
  require((k >= 0).all() and (k < np.prod(g['bins'].astype(np.int64) + 1)).all(), 'index out of range', k)
  got = np.asarray(d.make_continuous(jnp.asarray(k)), np.float64)
  err = np.abs(got - np.clip(c['v'].astype(np.float64), g['lo'], g['hi']))
  require((err <= step / 2 + eps).all(), 'not the nearest grid value', c['v'], got, step)
  return ['fine'] if (g['bins'] > 255).any() else []


@R.law(values(), quick=60, rule='same result for any batch shape')
def batch_shape_invariance(c):
  import jax.numpy as jnp
  d = make(c['g'])
  D = c['v'].shape[-1]
  a = np.asarray(d.discretize(jnp.asarray(c['v'])))
  b = np.asarray(d.discretize(jnp.asarray(c['v'].reshape(-1, D))))
  eq(a.reshape(-1, 1), b, 'discretize under reshape')
  x = np.asarray(d.make_continuous(jnp.asarray(a)))
  y = np.asarray(d.make_continuous(jnp.asarray(b)))
  import jax
  eq(np.asarray(jax.jit(d.discretize)(jnp.asarray(c['v']))), a, 'jitted discretize')
  close(np.asarray(jax.jit(d.make_continuous)(jnp.asarray(a))), x, 'jitted make_continuous',
        atol=1e-5)
  eq(x.reshape(-1, D), y, 'make_continuous under reshape')
  return ['ok']


@st.composite
def mism(draw):
  a, b, c = (draw(st.integers(2, 4)) for _ in range(3))
  return dict(n=[a, b, c], vdim=draw(st.integers(1, 5)))


@R.law(mism(), quick=60, rule='mismatching shapes')
def shape_mismatch_rejected(c):
  import jax.numpy as jnp
  from waymax import dynamics
  a, b, e = c['n']
  try:
    d = dynamics.Discretizer(jnp.zeros((a,)), jnp.ones((b,)), jnp.full((e,), 2))
  except (ValueError, TypeError):
    require(not a == b == e, 'consistent shapes rejected')
    return ['rejected']
  require(a == b == e, f'Discretizer accepted shapes {a} {b} {e}')
  try:
    d.discretize(jnp.zeros((3, c['vdim'])))
  except ValueError:
    require(c['vdim'] != a, 'consistent value rejected')
    return ['rejected']
  require(c['vdim'] == a, f'discretize accepted a {c["vdim"]}-vector for {a} dims')
  return []


WRAPS = [('bicycle', (4, 3)), ('bicycle', (2, 5)), ('delta_local', (3, 2, 4)),
         ('delta_global', (2, 4, 3)), ('delta_global', (5, 1, 2)), ('bicycle_norm', (3, 4))]


def wrapper(i, binv=True):
  import jax.numpy as jnp
  from waymax import dynamics
  k, bins = WRAPS[i]
  return envs.cached(('c08w', i, binv), lambda: dynamics.DiscreteActionSpaceWrapper(
      envs.DYNS[k].make(), jnp.asarray(bins), **({} if binv else {'bin_inverse': False})))


def wgrid(i):
  k, bins = WRAPS[i]
  d = envs.DYNS[k]
  return dict(lo=-np.float32(d.spec), hi=np.float32(d.spec), bins=np.asarray(bins))


@st.composite
def wcase(draw):
  i = draw(st.integers(0, len(WRAPS) - 1))
  n = int(np.prod(np.asarray(WRAPS[i][1]) + 1))
  T = 4
  sc = draw(gens.scenario(N=3, T=T, P=2, L=1, sim='free'))
  return dict(i=i, sc=sc, t=draw(st.integers(0, T - 2)),
              idx=[draw(st.integers(0, n - 1)) for _ in range(3)],
              valid=[draw(st.booleans()) for _ in range(3)])


@R.law(wcase(), quick=250, rule='discrete step = continuous step at the grid action')
def wrapper_steps_like_continuous(c):
  import jax
  i = c['i']
  m = wrapper(i)
  k, bins = WRAPS[i]
  n = int(np.prod(np.asarray(bins) + 1))
  s = m.action_spec()
  require(tuple(s.shape) == (1,) and int(np.ravel(s.minimum)[0]) == 0 and
          int(np.ravel(s.maximum)[0]) == n - 1, f'discrete spec {s}')
  require(np.issubdtype(np.dtype(s.dtype), np.integer), 'discrete spec dtype')
  idx = np.asarray(c['idx'], np.int32)[:, None]
  valid = np.asarray(c['valid'])[:, None]
  f = envs.cached(('c08f', i), lambda: jax.jit(m.compute_update))
  cur = {kk: v[:, c['t']:c['t'] + 1] for kk, v in c['sc']['sim'].items()}
  out = f(envs.to_action(dict(data=idx, valid=valid)), gens.to_traj(cur))
  import jax.numpy as jnp
  g = wgrid(i)
  val = np.asarray(make(g).make_continuous(jnp.asarray(idx)))
  d = envs.DYNS[k]
  c1 = ref.at(c['sc']['sim'], c['t'])
  want, tol = d.update(c1, val), d.tol(c1, val)
  for kk in ref.FIELDS:
    gg = np.asarray(getattr(out, kk))[:, 0]
    if kk == 'yaw':
      require((ref.angdiff(gg, want[kk]) <= tol[kk] + 1e-5).all(), f'yaw {gg} {want[kk]}')
    else:
      close(gg, want[kk], f'discrete update {kk}', atol=tol[kk] + 2e-5)
  eq(np.asarray(out.valid)[:, 0], valid[:, 0] & c1['valid'], 'discrete update validity')
  # Through the environment as well.
  from waymax import env as E
  env = envs.cached(('c08e', i), lambda: E.BaseEnvironment(m, envs.config('VALID', True, 1, 3)))
  st_ = envs.cached(('c08s', i), lambda: jax.jit(env.step))(
      gens.to_state(c['sc'], c['t']), envs.to_action(dict(data=idx, valid=valid)))
  sel = c['sc']['md']['is_valid'] & c1['valid'] & valid[:, 0]
  for kk in ('x', 'y'):
    close(np.asarray(getattr(st_.sim_trajectory, kk))[sel, c['t'] + 1], want[kk][sel],
          f'env step with discrete actions: {kk}', atol=(tol[kk] + 2e-5)[sel])
  return [k]


@st.composite
def icase(draw):
  i = draw(st.integers(0, len(WRAPS) - 1))
  T = 4
  tr = gens.trajectory(draw, 3, T)
  if draw(st.booleans()):
    for k in ('x', 'y'):
      tr[k] = (tr[k][:, :1] + (tr[k] - tr[k][:, :1]) * np.float32(.15)).astype(np.float32)
  return dict(i=i, tr=tr, t=draw(st.integers(0, T - 2)))


def zero_index(i):
  import jax.numpy as jnp
  return int(np.ravel(np.asarray(make(wgrid(i)).discretize(
      jnp.zeros((len(WRAPS[i][1]),)))))[0])


@R.law(icase(), quick=250, rule='binned inverse')
def inverse_by_binning(c):
  import jax
  import jax.numpy as jnp
  i = c['i']
  k, bins = WRAPS[i]
  f = envs.cached(('c08b', i), lambda: jax.jit(
      lambda tr, md, t: wrapper(i).inverse(tr, md, t)))
  out = f(gens.to_traj(c['tr']), c06.metadata(3), c['t'])
  data = np.asarray(out.data)
  n = int(np.prod(np.asarray(bins) + 1))
  require(data.shape == (3, 1), f'inverse shape {data.shape}')
  require((data >= 0).all() and (data < n).all(), f'index out of range {data}')
  d = envs.DYNS[k]
  a, valid, safe, tol = d.inverse(c['tr'], c['t'])
  eq(np.asarray(out.valid)[:, 0], valid, 'inverse validity')
  val = np.asarray(make(wgrid(i)).make_continuous(jnp.asarray(data)))
  step = step_of(wgrid(i))
  bad = np.abs(val - a) > step / 2 + tol + 1e-4
  require(not bad[safe].any(), f'not the nearest grid action: {val} vs {a}')
  return [k] if (valid & safe).any() else []


@R.law(icase(), quick=200, rule='searched inverse: minimal corner distance')
def inverse_by_search(c):
  import jax
  import jax.numpy as jnp
  i = c['i']
  k, bins = WRAPS[i]
  m = wrapper(i, False)
  f = envs.cached(('c08sr', i), lambda: jax.jit(
      lambda tr, md, t: m.inverse(tr, md, t)))
  out = f(gens.to_traj(c['tr']), c06.metadata(3), c['t'])
  data = np.asarray(out.data)
  n = int(np.prod(np.asarray(bins) + 1))
  require(data.shape == (3, 1), f'inverse shape {data.shape}')
  require((data >= 0).all() and (data < n).all(), f'index out of range {data}')
  tr = ref.f64(c['tr'])
  cur, nxt = ref.at(tr, c['t']), ref.at(tr, c['t'] + 1)
  valid = cur['valid'] & nxt['valid']
  eq(np.asarray(out.valid)[:, 0], valid, 'inverse validity')
  d = envs.DYNS[k]
  allv = np.asarray(make(wgrid(i)).make_continuous(jnp.arange(n)[:, None]), np.float64)
  dist = np.zeros((n, 3))
  want = ref.corners(nxt['x'], nxt['y'], nxt['length'], nxt['width'], nxt['yaw'])
  for j in range(n):
    u = d.update(cur, np.broadcast_to(allv[j], (3, d.dim)))
    got = ref.corners(u['x'], u['y'], cur['length'], cur['width'], u['yaw'])
    dist[j] = np.sqrt(((got - want) ** 2).sum((-1, -2)))
  sel = dist[data[:, 0], np.arange(3)]
  best = dist.min(0)
  require((sel <= best + 1e-3 + 1e-4 * best)[valid].all(),
          f'not a best-matching action: distance {sel} best {best} valid {valid}')
  require((data[~valid, 0] == zero_index(i)).all(), 'invalid entry is not the zero action')
  return [k] if valid.any() else []
