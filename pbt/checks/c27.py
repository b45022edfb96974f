"""C27: array and datatype utilities equal their NumPy definitions."""
import os
import numpy as np
from hypothesis import strategies as st
import gens
import ref
from harness import Registry, Violation, close, eq, require

R = Registry('C27', 'Random trees of float, integer and boolean leaves over many '
             'shapes, axes, index kinds (Python, scalar, one per batch element) and '
             'masks; random trajectories, maps, lights, paths and actions. Oracle: '
             'direct NumPy definitions. Non-trivial: more than one element, and a '
             'mask that is neither empty nor full where there is one.',
             ['indices in bounds; selected data finite'])

# Small pools (every new combination compiles several programs).
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
BATCH = [(), (), (2,), (3, 2)] + [(3,), (2, 2)] * THOROUGH
INNER = [(5,), (3, 3), (2, 3, 4)] + [(1,), (4, 6), (1, 4)] * THOROUGH


def tree(src, shape, extra=()):
  t = {'f': src.sym(shape, 1000.0), 'i': src.ints(shape, -50, 50).astype(np.int32),
       'b': src.bits(shape, 120), 'n': [src.sym(shape + extra, 3.0)]}
  return t


def jx(t):
  import jax
  import jax.numpy as jnp
  return jax.tree_util.tree_map(jnp.asarray, t)


def leaves(t):
  return [t['f'], t['i'], t['b'], t['n'][0]]


def gleaves(t):
  return [np.asarray(v) for v in (t['f'], t['i'], t['b'], t['n'][0])]


@st.composite
def slice_case(draw):
  inner = draw(st.sampled_from(INNER))
  batch = draw(st.sampled_from(BATCH))
  shared = draw(st.booleans()) or not batch  # one index for all, or one each
  rank = len(inner)
  axis = draw(st.integers(0, rank - 1))
  neg = draw(st.booleans()) or (shared and bool(batch))
  n = inner[axis]
  size = draw(st.integers(1, n))
  src = gens.Src(draw, 600)
  idx_shape = () if shared else batch
  return dict(t=tree(src, batch + inner), batch=batch, inner=inner, shared=shared, size=size,
              axis=axis - rank if neg else axis, pos=axis,
              start=src.ints(idx_shape, 0, n - size).astype(np.int32),
              index=src.ints(idx_shape, 0, n - 1).astype(np.int32),
              u=tree(src, batch + inner), ustart=src.ints(idx_shape, 0, n - size).astype(np.int32),
              kind=draw(st.sampled_from(['int', 'np', 'jnp'])))


def as_index(v, kind):
  import jax.numpy as jnp
  if v.shape == () and kind == 'int':
    return int(v)
  return v if kind == 'np' and v.shape == () else jnp.asarray(v)


def per_batch(c, fn, *arrs):
  """fn(inner arrays..., batch position) for every batch element."""
  b = c['batch']
  out = [fn(*[a[i] for a in arrs], i) for i in np.ndindex(*b)]
  return np.stack(out).reshape(b + out[0].shape) if b else out[0]


def at(v, i):
  return int(v[i]) if v.shape else int(v)


@R.law(slice_case(), quick=130, name='dynamic slice and index')
def slicing(c):
  from waymax import datatypes as d
  t = jx(c['t'])
  got = d.dynamic_slice(t, as_index(c['start'], c['kind']), c['size'], c['axis'])
  for g, v in zip(gleaves(got), leaves(c['t'])):
    eq(g, per_batch(c, lambda x, i: np.take(x, range(at(c['start'], i), at(c['start'], i) + c['size']), c['pos']), v), 'slice')
  for keep in (True, False):
    got = d.dynamic_index(t, as_index(c['index'], c['kind']), c['axis'], keep)
    for g, v in zip(gleaves(got), leaves(c['t'])):
      want = per_batch(c, lambda x, i: np.take(x, [at(c['index'], i)] if keep else at(c['index'], i), c['pos']), v)
      eq(g, want, f'index keepdims={keep}')
  return ['per element' if not c['shared'] else 'shared'] if np.prod(c['inner']) > 1 else []


@R.law(slice_case(), quick=110, name='update of a slice')
def updating(c):
  from waymax import datatypes as d
  t, u = jx(c['t']), jx(c['u'])
  s, ax, k = c['start'], c['axis'], c['size']

  def want(x, y, i, ustart):
    out = np.moveaxis(x.copy(), c['pos'], 0)
    out[at(s, i):at(s, i) + k] = np.moveaxis(y, c['pos'], 0)[ustart:ustart + k]
    return np.moveaxis(out, 0, c['pos'])
  # One slice of the same place.
  got = d.update_by_slice_in_dim(t, u, as_index(s, c['kind']), slice_size=k, axis=ax)
  for g, x, y in zip(gleaves(got), leaves(c['t']), leaves(c['u'])):
    eq(g, per_batch(c, lambda a, b, i: want(a, b, i, at(s, i)), x, y), 'update in place')
  # A slice of another place, shared or per element.
  us = c['ustart']
  got = d.update_by_slice_in_dim(t, u, as_index(s, c['kind']), as_index(us, c['kind']), k, ax)
  for g, x, y in zip(gleaves(got), leaves(c['t']), leaves(c['u'])):
    eq(g, per_batch(c, lambda a, b, i: want(a, b, i, at(us, i)), x, y), 'update from elsewhere')
  got = d.update_by_slice_in_dim(t, u, as_index(s, c['kind']), 0, k, ax)
  for g, x, y in zip(gleaves(got), leaves(c['t']), leaves(c['u'])):
    eq(g, per_batch(c, lambda a, b, i: want(a, b, i, 0), x, y), 'update from the start')
  # The whole (smaller) updates array.
  small = lambda v: per_batch(c, lambda y, i: np.take(y, range(k), c['pos']), v)
  us_ = {'f': small(c['u']['f']), 'i': small(c['u']['i']), 'b': small(c['u']['b']), 'n': [small(c['u']['n'][0])]}
  got = d.update_by_slice_in_dim(t, jx(us_), as_index(s, c['kind']), axis=ax)
  for g, x, y in zip(gleaves(got), leaves(c['t']), leaves(us_)):
    eq(g, per_batch(c, lambda a, b, i: want(a, b, i, 0), x, y), 'update by a whole array')
  for x, y in zip(gleaves(t), leaves(c['t'])):
    eq(x, y, 'input mutated')
  return ['per element' if not c['shared'] else 'shared'] if k < c['inner'][c['pos']] else []


@st.composite
def mask_case(draw):
  shape = draw(st.sampled_from([(1,), (4,), (3, 3), (2, 3), (4, 4), (2, 3, 4), (3, 1, 2)]))
  src = gens.Src(draw, 400)
  mk = draw(st.sampled_from(['mixed', 'mixed', 'none', 'all']))
  valid = src.bits(shape, {'mixed': 128, 'none': 0, 'all': 256}[mk])
  rank = len(shape)
  k = draw(st.integers(1, rank))
  return dict(shape=shape, valid=valid, t=tree(src, shape), u=tree(src, shape), axis=draw(st.one_of(
      st.integers(-rank, rank - 1), st.none(), st.just(tuple(range(rank))[:max(1, rank - 1)]))),
              fill=draw(st.sampled_from([-1.0, 0.0, 7.5])), nan=draw(st.booleans()),
              trailing=draw(st.sampled_from([(), (1,), (2,), (3, 2)])), prefix=k,
              bmask=src.bits(shape[:k] + (1,) * (rank - k), 128))


@R.law(mask_case(), quick=220, name='masked mean, masked values and masked updates')
def masked(c):
  import jax.numpy as jnp
  from waymax import datatypes as d
  x, v, ax = c['t']['f'].copy(), c['valid'], c['axis']
  if c['nan']:
    x[~v] = np.nan  # invalid values never matter
  got = np.asarray(d.masked_mean(jnp.asarray(x), jnp.asarray(v), axis=ax, invalid_value=c['fill']))
  cnt = v.sum(axis=ax, keepdims=True)
  m = np.where(cnt > 0, np.where(v, x.astype(float), 0).sum(axis=ax, keepdims=True) / np.maximum(cnt, 1), c['fill'])
  close(got, np.broadcast_to(m, x.shape), 'masked mean', 1e-3, 1e-5)
  # MaskedArray: value has the shape of valid, then any trailing dims.
  val = np.broadcast_to(x.reshape(x.shape + (1,) * len(c['trailing'])), x.shape + c['trailing']).astype(np.float32)
  val = val + np.arange(int(np.prod(c['trailing'], initial=1)), dtype=np.float32).reshape(c['trailing'])
  ma = d.MaskedArray.create_and_validate(value=jnp.asarray(val), valid=jnp.asarray(v))
  ve = v.reshape(v.shape + (1,) * len(c['trailing']))
  eq(np.asarray(ma.masked_value(c['fill'])), np.where(ve, val, np.float32(c['fill'])), 'masked_value')
  eq(np.asarray(ma.masked_value()), np.where(ve, val, np.float32(0)), 'masked_value default')
  require(ma.shape == v.shape, 'shape of a masked array')
  require(bool(ma == d.MaskedArray(value=jnp.asarray(val), valid=jnp.asarray(v))) == (not np.isnan(val).any()), 'equality')
  flip = v.copy()
  flip.reshape(-1)[0] ^= True
  require(not (ma == d.MaskedArray(value=jnp.asarray(val), valid=jnp.asarray(flip))), 'equality ignores validity')
  # update_by_mask with a mask that broadcasts to the leaves.
  t, u = jx(c['t']), jx(c['u'])
  got = d.update_by_mask(t, u, jnp.asarray(c['bmask']))
  for g, a, b in zip(gleaves(got), leaves(c['t']), leaves(c['u'])):
    eq(g, np.where(c['bmask'], b, a), 'update by mask')
  for a in leaves(c['t']):
    want = np.zeros_like(a) if a.dtype == bool else np.full_like(a, -1)
    eq(np.asarray(d.make_invalid_data(jnp.asarray(a))), want, 'make_invalid_data')
  return ['mixed'] if v.any() and not v.all() else []


@R.law(st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**32 - 1), shape=st.sampled_from([(200,), (300, 2), (2, 128), (70000,), (3, 33000)]),
    axis=st.sampled_from([0, -1, None]), keep=st.sampled_from([1.0, .97, .5, .01]),
    size=st.sampled_from([1, 60, 127]))), quick=40, name='large arrays',
       rule='more than 255 valid entries')
def large(c):
  import jax.numpy as jnp
  from waymax import datatypes as d
  r = np.random.Generator(np.random.PCG64(c['seed']))
  x = r.uniform(-2, 5, c['shape']).astype(np.float32)
  v = r.random(c['shape']) < c['keep']
  ax = c['axis']
  got = np.asarray(d.masked_mean(jnp.asarray(x), jnp.asarray(v), axis=ax, invalid_value=9.0))
  cnt = v.sum(axis=ax, keepdims=True)
  m = np.where(cnt > 0, np.where(v, x.astype(float), 0).sum(axis=ax, keepdims=True) / np.maximum(cnt, 1), 9.0)
  close(got, np.broadcast_to(m, x.shape), 'masked mean of a large array', 1e-3)
  n = c['shape'][-1]
  i = int(r.integers(0, n))
  start = int(r.integers(0, n - c['size'] + 1)) if n >= c['size'] else 0
  t = {'x': jnp.asarray(x), 'v': jnp.asarray(v)}
  size = min(c['size'], n)
  sl, ix = d.dynamic_slice(t, start, size, -1), d.dynamic_index(t, i, -1, False)
  up = d.update_by_slice_in_dim(t, {'x': -t['x'], 'v': ~t['v']}, start, slice_size=size, axis=-1)
  hot = d.select_by_onehot({k: jnp.moveaxis(a, -1, 0) for k, a in t.items()}, jnp.arange(n) == i)
  for k, a in (('x', x), ('v', v)):
    eq(np.asarray(sl[k]), a[..., start:start + size], 'slice of a large array')
    eq(np.asarray(ix[k]), a[..., i], 'index in a large array')
    eq(np.asarray(hot[k]), a[..., i], 'selection in a large array')
    w = a.copy()
    w[..., start:start + size] = ~w[..., start:start + size] if k == 'v' else -w[..., start:start + size]
    eq(np.asarray(up[k]), w, 'update of a large array')
  return ['large'] if cnt.max() > 255 else []


@st.composite
def onehot_case(draw):
  batch = draw(st.sampled_from(BATCH))
  n = draw(st.sampled_from([1, 4, 4]))
  src = gens.Src(draw, 400)
  return dict(batch=batch, n=n, hot=src.ints(batch, 0, n - 1), keep=draw(st.booleans()),
              t=tree(src, batch + (n,) + draw(st.sampled_from([(), (2,)] + [(3, 2)] * THOROUGH)), draw(st.sampled_from([(), (2,)]))),
              bad=draw(st.sampled_from([0, 1])))


@R.law(onehot_case(), quick=100, name='one-hot selection')
def onehot(c):
  import jax.numpy as jnp
  from waymax import datatypes as d
  sel = np.arange(c['n']) == c['hot'][..., None]
  got = d.select_by_onehot(jx(c['t']), jnp.asarray(sel), keepdims=c['keep'])
  ax = len(c['batch'])
  for g, v in zip(gleaves(got), leaves(c['t'])):
    ix = c['hot'].reshape(c['batch'] + (1,) * (v.ndim - ax))
    want = np.take_along_axis(v, ix, ax)
    eq(g, want if c['keep'] else np.squeeze(want, ax), 'selected')
  wrong = np.zeros(c['batch'] + (c['n'] + 1,), bool)
  try:
    d.select_by_onehot(jx(c['t']), jnp.asarray(wrong))
  except Exception:  # pylint: disable=broad-except
    pass
  else:
    raise Violation('a selection of the wrong length was accepted')
  return ['select'] if c['n'] > 1 else []


@st.composite
def data_case(draw):
  nb = draw(st.sampled_from([0, 0, 2]))
  K = draw(st.sampled_from([None, 2]))
  scs = [draw(gens.scenario(N=3, T=4, P=5, L=2, K=K, M=3, sim='free')) for _ in range(nb or 1)]
  src = gens.Src(draw, 60)
  return dict(sc=gens.stack_cases(scs) if nb else scs[0], b=nb, t=draw(st.integers(0, 3)), K=K,
              pick=draw(st.integers(0, 10**6)), how=draw(st.sampled_from(['shape', 'dtype'])),
              names=draw(st.lists(st.sampled_from(['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width']),
                                  min_size=1, max_size=5)), steps=draw(st.integers(1, 3)),
              act=src.sym((3, 5), 9.0), aval=src.bits((3, 1)))


def objects(c):
  """Every datatype of the case with its NumPy content."""
  import jax.numpy as jnp
  from waymax import datatypes as d
  sc = c['sc']
  out = {'trajectory': (gens.to_traj(sc['log']), sc['log']), 'metadata': (gens.to_md(sc['md']), sc['md']),
         'roadgraph': (gens.to_rg(sc['rg']), sc['rg']), 'lights': (gens.to_tl(sc['tl']), sc['tl'])}
  if c['K']:
    out['paths'] = (gens.to_paths(sc['paths']), sc['paths'])
  out['action'] = (d.Action(data=jnp.asarray(c['act']), valid=jnp.asarray(c['aval'])),
                   dict(data=c['act'], valid=c['aval']))
  u = {k: c['act'][:, i:i + 1] for i, k in enumerate(('x', 'y', 'yaw', 'vel_x', 'vel_y'))}
  out['update'] = (d.TrajectoryUpdate(valid=jnp.asarray(c['aval']), **{k: jnp.asarray(v) for k, v in u.items()}),
                   dict(u, valid=c['aval']))
  return out


@R.law(data_case(), quick=110, name='derived quantities')
def derived(c):
  import jax.numpy as jnp
  from waymax import datatypes as d
  from waymax.datatypes import object_state
  sc = c['sc']
  obs = objects(c)
  tr, f = obs['trajectory'][0], ref.f64(sc['log'])
  B = (c['b'],) if c['b'] else ()
  eq(np.asarray(tr.xy), np.stack([sc['log']['x'], sc['log']['y']], -1), 'xy')
  eq(np.asarray(tr.xyz), np.stack([sc['log'][k] for k in 'xyz'], -1), 'xyz')
  eq(np.asarray(tr.vel_xy), np.stack([sc['log']['vel_x'], sc['log']['vel_y']], -1), 'vel_xy')
  eq(np.asarray(tr.stack_fields(c['names'])), np.stack([sc['log'][k] for k in c['names']], -1), 'stack_fields')
  v = sc['log']['valid']
  close(np.asarray(tr.speed)[v], np.hypot(f['vel_x'], f['vel_y'])[v], 'speed', 1e-5, 1e-5)
  require((np.asarray(tr.speed)[~v] == -1).all(), 'invalid speed')
  mov = v & (np.hypot(f['vel_x'], f['vel_y']) > 1e-2)
  require((ref.angdiff(np.asarray(tr.vel_yaw), np.arctan2(f['vel_y'], f['vel_x']))[mov] < 1e-4).all(), 'vel_yaw')
  require((np.asarray(tr.vel_yaw)[~v] == -1).all(), 'invalid vel_yaw')
  require((tr.shape, tr.num_objects, tr.num_timesteps) == (B + (3, 4), 3, 4), 'shape')
  # Corners: a rectangle of the right sides about the centre, along the heading.
  cs = np.asarray(tr.bbox_corners, float)
  require(cs.shape == B + (3, 4, 4, 2), 'corner shape')
  big = 2e-6 * (10 + np.abs(f['x']) + np.abs(f['y'])) * 3
  close(cs.mean(-2), np.stack([f['x'], f['y']], -1), 'corners centre', big[..., None])
  ux, uy = np.cos(f['yaw']), np.sin(f['yaw'])
  dx, dy = cs[..., 0] - f['x'][..., None], cs[..., 1] - f['y'][..., None]
  lon, lat = dx * ux[..., None] + dy * uy[..., None], -dx * uy[..., None] + dy * ux[..., None]
  close(np.abs(lon), np.broadcast_to((f['length'] / 2)[..., None], lon.shape), 'corner length', (big + 1e-5 * np.abs(f['yaw']) * 10)[..., None], 1e-5)
  close(np.abs(lat), np.broadcast_to((f['width'] / 2)[..., None], lat.shape), 'corner width', (big + 1e-5 * np.abs(f['yaw']) * 10)[..., None], 1e-5)
  quad = np.stack([np.sign(lon), np.sign(lat)], -1)
  sz = (f['length'] > 1e-2) & (f['width'] > 1e-2)
  require((np.abs((quad[..., 0] * 2 + quad[..., 1]).sum(-1))[sz] == 0).all() and
          (np.sort(quad[..., 0] * 2 + quad[..., 1], -1) == np.array([-3, -1, 1, 3]))[sz].all(), 'four distinct corners')
  rg = obs['roadgraph'][0]
  eq(np.asarray(rg.xy), np.stack([sc['rg']['x'], sc['rg']['y']], -1), 'map xy')
  eq(np.asarray(rg.xyz), np.stack([sc['rg'][k] for k in 'xyz'], -1), 'map xyz')
  eq(np.asarray(rg.dir_xy), np.stack([sc['rg']['dir_x'], sc['rg']['dir_y']], -1), 'map dir_xy')
  eq(np.asarray(rg.dir_xyz), np.stack([sc['rg']['dir_' + k] for k in 'xyz'], -1), 'map dir_xyz')
  require((rg.shape, rg.num_points) == (B + (5,), 5), 'map shape')
  tl = obs['lights'][0]
  eq(np.asarray(tl.xy), np.stack([sc['tl']['x'], sc['tl']['y']], -1), 'light xy')
  require((tl.shape, tl.num_traffic_lights, tl.num_timesteps) == (B + (2, 4), 2, 4), 'light shape')
  md = obs['metadata'][0]
  require((md.shape, md.num_objects) == (B + (3,), 3), 'metadata shape')
  if c['K']:
    p = obs['paths'][0]
    eq(np.asarray(p.xy), np.stack([sc['paths']['x'], sc['paths']['y']], -1), 'path xy')
    eq(np.asarray(p.xyz), np.stack([sc['paths'][k] for k in 'xyz'], -1), 'path xyz')
    require((p.shape, p.num_paths, p.num_points_per_path) == (B + (2, 3), 2, 3), 'path shape')
  up, ud = obs['update']
  a = up.as_action()
  a.validate()
  eq(np.asarray(a.data), np.concatenate([ud[k] for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1), 'as_action')
  eq(np.asarray(a.valid), c['aval'], 'as_action valid')
  require(a.shape == (3,) and obs['action'][0].shape == (3,) and up.shape == (3, 1), 'action shape')
  for lead in ((2,), (1, 2)):  # batched: the fields are in the last axis
    big = lambda v: np.broadcast_to(np.stack([v, np.flip(v, 0)]), lead + v.shape).copy()
    bu = d.TrajectoryUpdate(valid=big(c['aval']), **{k: big(ud[k]) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')})
    bu.validate()
    ba = bu.as_action()
    ba.validate()
    eq(np.asarray(ba.data), big(c['act'][:, :5]), 'batched as_action')
    eq(np.asarray(ba.valid), big(c['aval']), 'batched as_action valid')
    require(ba.shape == lead + (3,) and bu.shape == lead + (3, 1), 'batched action shape')
  z = d.Trajectory.zeros(B + (3, 4))
  z.validate()
  for steps in (4, 1):
    inv = object_state.fill_invalid_trajectory(d.dynamic_slice(tr, 0, steps, -1))
    inv.validate()
    for k in sc['log']:
      require(not np.asarray(getattr(z, k)).any(), 'zeros')
      eq(np.asarray(getattr(inv, k)), np.zeros(B + (3, steps), bool) if k == 'valid' else
         np.full(B + (3, steps), -1, sc['log'][k].dtype), 'fill_invalid_trajectory')
  s = gens.to_state(sc, c['t'])
  require((s.shape, s.batch_dims, s.num_objects) == (B, B, 3), 'state shape')
  for name, part in (('current_sim_trajectory', 'sim'), ('current_log_trajectory', 'log')):
    for k, val in sc[part].items():
      eq(np.asarray(getattr(getattr(s, name), k)), val[..., c['t']:c['t'] + 1], f'{name} {k}')
  from waymax import config as C
  for o, k in (('SDC', 'is_sdc'), ('MODELED', 'is_modeled'), ('VALID', 'is_valid')):
    eq(np.asarray(d.get_control_mask(md, C.ObjectType[o])), sc['md'][k], f'control mask {o}')
  try:
    d.get_control_mask(md, 'nothing')
  except ValueError:
    pass
  else:
    raise Violation('control mask of an unknown object type')
  if c['t'] + c['steps'] < 4:
    n = d.update_state_by_log(s, c['steps'])
    require(int(np.asarray(n.timestep).max()) == c['t'] + c['steps'], 'timestep')
    for k, val in sc['sim'].items():
      w = val.copy()
      w[..., c['t'] + 1:c['t'] + 1 + c['steps']] = sc['log'][k][..., c['t'] + 1:c['t'] + 1 + c['steps']]
      eq(np.asarray(getattr(n.sim_trajectory, k)), w, f'update_state_by_log {k}')
  return ['batched' if c['b'] else 'single']


def mutate(obj, content, c):
  """obj with one field of another shape or dtype; returns (mutant, field)."""
  import jax.numpy as jnp
  fields = sorted(content)
  k = fields[c['pick'] % len(fields)]
  v = np.asarray(content[k])
  if c['how'] == 'shape':
    w = v[..., :-1] if v.shape[-1] > 1 else np.concatenate([v, v], -1)
  else:
    w = v.astype(np.int32) if v.dtype.kind in 'fb' else v.astype(np.float32)
  return obj.replace(**{k: jnp.asarray(w)}), k


@R.law(data_case(), quick=150, name='validation and equality')
def validation(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as d
  for name, (obj, content) in objects(c).items():
    obj.validate()
    same = jax.tree_util.tree_map(lambda x: jnp.array(np.array(x)), obj)
    require(bool(obj == same), f'{name}: an equal copy compares unequal')
    k = sorted(content)[c['pick'] % len(content)]
    v = np.array(content[k])
    i = c['pick'] % v.size
    w = v.copy()
    w.reshape(-1)[i] = (not w.reshape(-1)[i]) if v.dtype == bool else w.reshape(-1)[i] + 1
    require(not (obj == obj.replace(**{k: jnp.asarray(w)})), f'{name}: a changed {k} compares equal')
    require(not (obj == object()), f'{name}: equal to an object of another type')
    if not d.compare_all_leaf_nodes(obj, same, jnp.allclose):
      raise Violation(f'{name}: not close to itself')
    if name == 'action' and (k == 'data' or (c['how'] == 'dtype' and k != 'valid')):
      continue  # data may have any size and type
    bad, k = mutate(obj, content, c)
    if name == 'paths' and k == 'x' and c['how'] == 'shape' and c['b'] == 0:
      pass
    try:
      bad.validate()
    except Exception:  # pylint: disable=broad-except
      continue
    raise Violation(f"{name}: validate accepts {k} of another {c['how']}")
  # Whole states.
  s = gens.to_state(c['sc'], c['t'])
  require(bool(s == gens.to_state(c['sc'], c['t'])), 'equal states compare unequal')
  require(not (s == s.replace(timestep=jnp.array(c['t'] + 1))), 'another timestep compares equal')
  require(not (s == s.replace(roadgraph_points=None)), 'a state without map compares equal')
  for part, key in (('log_trajectory', 'log'), ('sim_trajectory', 'sim')):
    v = c['sc'][key]['x'].copy()
    v.reshape(-1)[c['pick'] % v.size] += 1
    require(not (s == s.replace(**{part: getattr(s, part).replace(x=jnp.asarray(v))})), 'a changed pose compares equal')
  if c['b']:
    st_ = s.replace(timestep=jnp.full((c['b'],), c['t']))
    st_.validate()
    for part in ('sim_trajectory', 'log_trajectory', 'log_traffic_light', 'roadgraph_points'):
      cut = jax.tree_util.tree_map(lambda x: x[:1], getattr(st_, part))
      try:
        st_.replace(**{part: cut}).validate()
      except Exception:  # pylint: disable=broad-except
        continue
      raise Violation(f'validate accepts a state with another batch size in {part}')
  ma = d.MaskedArray(value=jnp.zeros((3, 2)), valid=jnp.zeros((3,), bool))
  ma.validate()
  for bad in (d.MaskedArray(value=jnp.zeros((2, 3)), valid=jnp.zeros((3,), bool)),
              d.MaskedArray(value=jnp.zeros((3,)), valid=jnp.zeros((3,), jnp.int32))):
    try:
      bad.validate()
    except Exception:  # pylint: disable=broad-except
      continue
    raise Violation('an inconsistent masked array was accepted')
  return [c['how']]
