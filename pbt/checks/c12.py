"""C12: roadgraph selection returns exactly the nearest map points, unaltered."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from harness import Registry, eq, require, Violation

R = Registry('C12', 'Random, lattice (ties) and polyline maps with partial '
             'validity, far coordinates, ids up to the int32 range and repeated '
             'points; oracle: multiset of rows and sorted distances. '
             'Non-trivial: some but not all valid points are selected.')
RG = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')


@st.composite
def case(draw, P=10):
  b = draw(st.sampled_from([(), (3,), (4,), (2, 2)]))
  n = int(np.prod(b))
  big = draw(st.booleans())
  rgs = [gens.roadgraph(draw, P, big_ids=big) for _ in range(n)]
  rg = {k: np.stack([d[k] for d in rgs]).reshape(b + (P,)) for k in rgs[0]}
  src = gens.Src(draw, 4 * n + 4 * n * P)
  rg['types'] = rg['types'].copy()
  if draw(st.booleans()):
    rg['dir_z'] = src.sym(b + (P,), 1)
  off = np.float32(draw(st.sampled_from([0.0, 0.0, 5000.0])))
  pt = src.sym(b + (2,), 20) + off
  far = draw(st.sampled_from([1, 1, 1, 40, 2000]))
  for k in ('x', 'y'):
    rg[k] = rg[k] * np.float32(far)
  if draw(st.booleans()):
    pt = np.round(pt * 2) / 2
  for k in ('x', 'y'):
    rg[k] = rg[k] + off
  return dict(rg=rg, pt=np.asarray(pt, np.float32), k=draw(st.sampled_from([4, 4, 1, 9, 10])))


def rows(rg):
  return [tuple(float(rg[k][i]) if k not in ('ids', 'types') else int(rg[k][i])
                for k in RG[:-1]) for i in range(len(rg['x']))]


def check_selection(sel, rg, pt, k, what=''):
  """sel, rg: dicts of 1-D arrays; all rows must be unaltered."""
  require(len(sel['x']) == k, what, 'selected', len(sel['x']), 'points, not', k)
  nv = int(rg['valid'].sum())
  svalid = sel['valid'].astype(bool)
  require(svalid.sum() == min(k, nv), what, f'{svalid.sum()} valid points selected, '
          f'{min(k, nv)} expected')
  pool = {}
  for r, v in zip(rows(rg), rg['valid']):
    pool.setdefault((r, bool(v)), []).append(1)
  used = {}
  for r, v in zip(rows(sel), svalid):
    if not v:
      continue
    key = (r, True)
    used[key] = used.get(key, 0) + 1
    require(used[key] <= len(pool.get(key, [])), what,
            'selected point is not a (distinct) valid map point:', r)
  d = np.hypot(rg['x'].astype(float) - pt[0], rg['y'].astype(float) - pt[1])
  ds = np.sort(np.hypot(sel['x'].astype(float) - pt[0], sel['y'].astype(float) - pt[1])[svalid])
  best = np.sort(d[rg['valid']])[:len(ds)]
  m = 1e-6 * (np.abs(rg['x']).max() + np.abs(rg['y']).max() + 10)
  require((ds <= best + m).all(), what, 'a nearer valid point was left out:',
          ds.tolist(), 'nearest', best.tolist())


def run(k):
  def make():
    import jax
    from waymax.datatypes import roadgraph
    return jax.jit(lambda rg, pt: roadgraph.filter_topk_roadgraph_points(rg, pt, k))
  return envs.cached(('c12', k), make)


@R.law(case(), quick=500)
def topk(c):
  rg, pt, k = c['rg'], c['pt'], c['k']
  out = run(k)(gens.to_rg(rg), pt)
  sel = {f: np.asarray(getattr(out, f)) for f in RG}
  for f in RG:
    require(sel[f].dtype == np.asarray(rg[f]).dtype, f'{f} dtype {sel[f].dtype}')
    require(sel[f].shape == pt.shape[:-1] + (k,), f'{f} shape {sel[f].shape}')
  if k == rg['x'].shape[-1]:
    for f in RG:
      eq(sel[f], rg[f], f'unfiltered {f}')
  lab = []
  for i in np.ndindex(pt.shape[:-1]):
    check_selection({f: v[i] for f, v in sel.items()}, {f: v[i] for f, v in rg.items()},
                    pt[i], k, str(i))
    if k < rg['valid'][i].sum():
      lab.append('selected')
    elif k > rg['valid'][i].sum():
      lab.append('padded')
  return sorted(set(lab))


@R.law(case(), quick=40, name='errors',
       rule='asking for more points than exist is rejected (documented)')
def errors(c):
  from waymax.datatypes import roadgraph
  for k in (11, 12 + c['k']):
    try:
      roadgraph.filter_topk_roadgraph_points(gens.to_rg(c['rg']), c['pt'], k)
    except (NotImplementedError, ValueError, AssertionError):
      pass
    else:
      raise Violation(f'topk={k} accepted for 10 points')
  return ['rejected']


@st.composite
def full_case(draw):
  rg = draw(gens.big(N=1, T=2, P=20000, L=1, K=1, M=2))['rg']
  src = gens.Src(draw, 8)
  i = int(src.ints((1,), 0, 19999)[0])
  pt = np.asarray([rg['x'][i], rg['y'][i]]) + src.sym((2,), 30)
  if draw(st.booleans()):
    rg['valid'] &= np.arange(20000) % 50 == i % 50  # fewer than asked for
  return dict(rg=rg, pt=pt.astype(np.float32), k=draw(st.sampled_from([1000, 2000])))


@R.law(full_case(), quick=30, name='full-size maps', rule='20000 map points')
def full_size(c):
  return topk(c)
