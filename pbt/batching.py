"""Groups of scenes as batches: the same as each scene alone."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from harness import Violation

N, T, P = 4, 6, 6
SHAPES = ((2,), (2, 2), (1, 2))


# ------------------------------------------------------------- comparing -----
def leaves(tree):
  import jax
  return [(jax.tree_util.keystr(p), np.asarray(x))
          for p, x in jax.tree_util.tree_flatten_with_path(tree)[0]]


def diff(batched, singles, shape, shared_ok):
  """First disagreement between a batched result and the per-scene ones."""
  lb = leaves(batched)
  ls = [leaves(s) for s in singles]
  if [p for p, _ in lb] != [p for p, _ in ls[0]]:
    return f'structure {[p for p, _ in lb]} vs {[p for p, _ in ls[0]]}'
  for j, (p, x) in enumerate(lb):
    y0 = ls[0][j][1]
    shared = x.shape == y0.shape and any(w in p for w in shared_ok)
    if not shared and x.shape != tuple(shape) + y0.shape:
      return f'{p}: shape {x.shape}, one scene {y0.shape}, batch {tuple(shape)}'
    if x.dtype != y0.dtype:
      return f'{p}: dtype {x.dtype} vs {y0.dtype}'
    for i, idx in enumerate(np.ndindex(*shape)):
      a = x if shared else x[idx]
      b = ls[i][j][1]
      if b.dtype.kind == 'f':
        with np.errstate(invalid='ignore', over='ignore'):
          sc = 2e-3 if 'progression' in p or 'reward' in p else 3e-4
          ok = (np.abs(a - b) <= sc + 2e-5 * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))
      else:
        ok = a == b
      if not np.all(ok):
        k = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        return (f'{p} of scene {idx} at {tuple(map(int, k))}: batched '
                f'{np.atleast_1d(a)[k]!r}, alone {np.atleast_1d(b)[k]!r}')
  return None


def nudged(sc, k):
  """The scene with every object moved by a small fixed pseudo-random amount."""
  if k == 0:
    return sc
  r = np.random.RandomState(k)
  out = dict(sc)
  for part, s in (('log', 2e-2), ('sim', 2e-2), ('rg', 2e-2), ('paths', 2e-2)):
    if sc.get(part) is None:
      continue
    out[part] = dict(sc[part])
    for f in ('x', 'y', 'yaw'):
      if f in sc[part]:
        out[part][f] = np.asarray(sc[part][f] + r.uniform(-s, s, np.shape(sc[part][f])), np.float32)
  return out


def judge(c, run):
  """run(scenes) -> message or None.  A mismatch must survive nudging."""
  msg = run(c['scs'])
  if msg is None:
    return
  for k in (1, 2, 3):
    if run([nudged(s, k) for s in c['scs']]) is None:
      return
  raise Violation(msg)


EMPTY = ['none', 'none', 'none', 'paths', 'route', 'all on route', 'map', 'edges', 'sim', 'log', 'objects', 'lights']


def emptied(sc, what):
  """Takes a whole ingredient away from one scene of a batch."""
  if what == 'paths':
    sc['paths']['valid'][:] = False
  elif what in ('route', 'all on route'):
    sc['paths']['on_route'][:] = what == 'all on route'
  elif what == 'map':
    sc['rg']['valid'][:] = False
  elif what == 'edges':
    sc['rg']['types'][:] = 1
  elif what in ('sim', 'log'):
    sc[what]['valid'][:] = False
  elif what == 'objects':
    sc['md']['is_valid'][:] = sc['md']['is_sdc']
    sc['md']['is_modeled'][:] = False
  elif what == 'lights':
    sc['tl']['valid'][:] = False
  return sc


@st.composite
def scenes(draw, shapes=SHAPES, dim=5, sim='free', lim=None):
  shape = draw(st.sampled_from(shapes))
  n = int(np.prod(shape))
  scs = []
  for _ in range(n):
    sc = draw(gens.scenario(N=N, T=T, P=P, L=2, K=2, M=4, sim=sim,
                            mode=draw(st.sampled_from(['smooth', 'smooth', 'wild']))))
    if draw(st.booleans()):  # a crowded, fully visible scene
      for part in ('log', 'sim'):
        for k in 'xy':
          sc[part][k] = sc[part][k] / np.float32(6)
        sc[part]['valid'][:] = True
    scs.append(emptied(sc, draw(st.sampled_from(EMPTY))))
  ts = [draw(st.integers(1, T - 2)) for _ in range(n)]
  if draw(st.booleans()):
    ts = [ts[0]] * n
  for sc, t in zip(scs, ts):
    sc['timestep'] = t
  return dict(shape=list(shape), scs=scs, ts=ts, scalar=draw(st.booleans()))


def batch(scs, shape, scalar):
  import jax
  b = gens.stack_cases(scs)
  s = gens.to_state(b)
  ts = b['timestep']
  s = jax.tree_util.tree_map(lambda x: x.reshape(tuple(shape) + x.shape[1:]), s)
  if scalar and (ts == ts[0]).all():
    s = s.replace(timestep=ts[0])
    return s, True
  return s, False


def shaped(x, shape):
  import jax
  return jax.tree_util.tree_map(lambda v: v.reshape(tuple(shape) + v.shape[1:]), x)


def stacked(xs, shape):
  import jax
  import jax.numpy as jnp
  return shaped(jax.tree_util.tree_map(lambda *v: jnp.stack([jnp.asarray(a) for a in v]), *xs), shape)


def compare(key, make, c, acts=None, label=(), vmapped=True):
  """Runs f(state, extra) alone, batched and vmapped and compares."""
  import jax
  shape = tuple(c['shape'])
  f1 = envs.cached(('c28', key, 1), lambda: jax.jit(make()))
  fb = envs.cached(('c28', key, shape), lambda: jax.jit(make()))

  def mkv():
    g = make()
    for _ in shape:
      g = jax.vmap(g)
    return jax.jit(g)
  fv = envs.cached(('c28', key, shape, 'v'), mkv)

  def run(scs):
    single = [f1(gens.to_state(s), a) for s, a in zip(scs, acts or [0] * len(scs))]
    sb, shared = batch(scs, shape, c['scalar'])
    ab = stacked(acts, shape) if acts else np.zeros(shape)
    ok = ['timestep'] + (['remaining', 'done', 'trunc', 'term'] if shared else [])
    m = diff(fb(sb, ab), single, shape, ok)
    if m is not None:
      return f'batched ({"shared" if shared else "own"} timesteps): {m}'
    if not vmapped:
      return None
    sv, _ = batch(scs, shape, False)
    m = diff(fv(sv, ab), single, shape, [])
    return None if m is None else f'vmapped: {m}'
  judge(c, run)
  labels = ['batch' + 'x'.join(map(str, shape))]
  if len(set(c['ts'])) > 1:
    labels.append('own timesteps')
  return labels + list(label)


def draw_actions(draw, dim, n, multi=True):
  src = gens.Src(draw, n * N * (2 * dim + 1))
  out = []
  for _ in range(n):
    shp = (N,) if multi else ()
    out.append(dict(data=src.sym(shp + (dim,), 1.0),
                    valid=src.bits(shp + (1,), 200) if multi else np.ones((1,), bool)))
  return out


def own_timesteps(R, make, dim=0, multi=True, quick=30, name='batches with own timesteps'):
  """Registers a law: scenes at timesteps of their own, as one batch and alone.

  make() -> f(state, action) -> tree, with NumPy-free code of the property's
  subject; one scene alone is judged by the other laws of the property."""
  @st.composite
  def case(draw):
    c = draw(scenes(shapes=((2,), (2,), (2, 2))))
    c['scalar'] = False
    if len(set(c['ts'])) == 1:
      c['ts'][0] = c['scs'][0]['timestep'] = 1 + c['ts'][-1] % (T - 2)
    if dim:
      c['act'] = draw_actions(draw, dim, len(c['scs']), multi)
    return c

  @R.law(case(), quick=quick, name=name, rule='each scene of the batch alone; non-trivial: timesteps differ')
  def law(c):
    return [w for w in compare((R.prop, name), make, c, c.get('act'), vmapped=False) if w == 'own timesteps']
  return law
