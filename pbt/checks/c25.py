"""C25: exporting a simulation to the record format and reading it back."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import records
import ref
from harness import Registry, Violation, close, eq, require

R = Registry('C25', 'Random simulator states (simulated poses differing from the '
             'log, mixed validity) at random timesteps with enough history; '
             'oracle: the exported arrays, and the state read back from them, '
             'against the source state in NumPy. Non-trivial: some object or '
             'light is valid in the exported window.',
             ['only states without batch dimensions are exportable',
              'object ids below 2**24: the record format stores them as floats'])
HIST = 10
SIZES = {'small': (3, 14, 5, 2), 'one': (1, 11, 1, 1), 'full': (128, 12, 6, 16)}


@st.composite
def case(draw, kinds=('small', 'small', 'small', 'one')):
  kind = draw(st.sampled_from(kinds))
  N, T, P, L = SIZES[kind]
  sc = draw(gens.scenario(N=N, T=T, P=P, L=L, sim='free', big_ids=kind == 'small'))
  src = gens.Src(draw, 64)
  sc['md'] = dict(sc['md'], is_valid=src.bits((N,), 190), ids=sc['md']['ids'] % 2**24)
  for k in ('length', 'width', 'height'):  # one box size per object
    sc['sim'][k] = np.repeat(sc['sim'][k][..., :1], T, -1)
  return dict(sc=sc, kind=kind, t=draw(st.integers(HIST, T - 1)))


@st.composite
def full_case(draw):
  """128 objects and 16 lights, tiled from a small scene with jitter."""
  N, T, P, L = SIZES['full']
  sc = draw(gens.scenario(N=4, T=T, P=P, L=2, sim='free'))
  r = np.random.Generator(np.random.PCG64(draw(st.integers(0, 2**32 - 1))))
  for part, n in (('sim', N // 4), ('log', N // 4), ('tl', L // 2)):
    for k, v in sc[part].items():
      w = np.concatenate([v] * n, 0)
      if v.dtype.kind == 'f' and k not in ('length', 'width', 'height'):
        w = w + r.normal(0, 3, w.shape).astype(w.dtype)
      elif v.dtype.kind == 'b':
        w = w ^ (r.random(w.shape) < .3)
      sc[part][k] = w
  for k, v in sc['md'].items():
    sc['md'][k] = np.concatenate([v] * (N // 4), 0) ^ (r.random(N) < .3) if v.dtype.kind == 'b' else r.integers(1, 5, N).astype(v.dtype)
  sc['md']['ids'] = r.permutation(4000)[:N].astype(np.int32)
  sc['md']['is_sdc'] = np.arange(N) == r.integers(N)
  for k in ('length', 'width', 'height'):
    sc['sim'][k] = np.repeat(sc['sim'][k][..., :1], T, -1)
  return dict(sc=sc, kind='full', t=draw(st.integers(HIST, T - 1)))


def desc(kind):
  from waymax.dataloader import womd_utils as wu
  N, _, P, L = SIZES[kind]
  return envs.cached(('c25d', kind), lambda: wu.get_features_description(
      max_num_objects=N, max_num_rg_points=P, num_tls=L))


def export(kind):
  def make():
    import jax
    from waymax.dataloader import womd_utils as wu
    d = desc(kind)
    return jax.jit(lambda s: wu.simulator_state_to_womd_dict(s, d))
  return envs.cached(('c25', kind), make)


def window(c):
  t = c['t']
  return slice(t - HIST, t), slice(t, t + 1)


def check_dict(c, got):
  sc, kind = c['sc'], c['kind']
  N, T, P, L = SIZES[kind]
  want = records.description(N, P, L)
  require(set(got) == set(want), 'exported keys', set(got) ^ set(want))
  for k, (shape, dt) in want.items():
    require(got[k].shape == shape, 'shape of', k, got[k].shape)
    require(got[k].dtype.kind == np.dtype(dt).kind, 'type of', k, got[k].dtype)
  sim, tl, md, rg = sc['sim'], sc['tl'], sc['md'], sc['rg']
  names = {'x': 'x', 'y': 'y', 'z': 'z', 'velocity_x': 'vel_x', 'velocity_y': 'vel_y',
           'bbox_yaw': 'yaw', 'valid': 'valid', 'length': 'length', 'width': 'width',
           'height': 'height', 'timestamp_micros': 'timestamp_micros'}
  for time, sl in zip(('past', 'current'), window(c)):
    for a, b in names.items():
      v = sim[b][..., sl]
      eq(got[f'state/{time}/{a}'], v.astype(np.int32) if v.dtype.kind in 'bi' else v, f'{time} {a}')
    vx, vy = sim['vel_x'][..., sl].astype(float), sim['vel_y'][..., sl].astype(float)
    ok = sim['valid'][..., sl]
    close(got[f'state/{time}/speed'][ok], np.hypot(vx, vy)[ok], 'speed', 1e-4, 1e-5)
    mov = ok & (np.hypot(vx, vy) > 1e-3)
    require((ref.angdiff(got[f'state/{time}/vel_yaw'], np.arctan2(vy, vx))[mov] < 1e-4).all(), 'velocity heading')
    ts = sim['timestamp_micros'][..., sl]
    if (ts == ts[:1]).all():
      eq(got[f'traffic_light_state/{time}/timestamp_micros'], ts[0], 'light times')
    for a in ('x', 'y', 'z', 'state', 'valid', 'lane_ids'):
      v = tl[a][..., sl].T
      eq(got[f"traffic_light_state/{time}/{'id' if a == 'lane_ids' else a}"],
         v.astype(np.int32) if v.dtype.kind in 'bi' else v, f'{time} light {a}')
  require((got['state/future/valid'] <= 0).all(), 'future state exported as valid')
  require((got['traffic_light_state/future/valid'] <= 0).all(), 'future light exported as valid')
  for a, b in (('type', 'object_types'), ('id', 'ids'), ('is_sdc', 'is_sdc'),
               ('objects_of_interest', 'objects_of_interest'), ('tracks_to_predict', 'is_modeled')):
    v = np.where(md['is_valid'], md[b].astype(np.int64), -1)
    eq(got[f'state/{a}'], v.astype(got[f'state/{a}'].dtype), f'metadata {a}')
  r = 'roadgraph_samples/'
  eq(got[r + 'xyz'], np.stack([rg['x'], rg['y'], rg['z']], -1), 'map points')
  eq(got[r + 'dir'], np.stack([rg['dir_x'], rg['dir_y'], rg['dir_z']], -1), 'map directions')
  for a, b in (('id', 'ids'), ('type', 'types'), ('valid', 'valid')):
    eq(got[r + a][:, 0], rg[b].astype(np.int32), f'map {a}')


def check_back(c, s):
  """The state read back: the window in the past, nothing after it."""
  sc, t = c['sc'], c['t']
  s.validate()
  sim = {k: v[..., t - HIST:t + 1] for k, v in sc['sim'].items()}
  tr = s.log_trajectory
  for k, v in sim.items():
    g = np.asarray(getattr(tr, k))[..., :HIST + 1]
    if k == 'yaw':
      require((ref.angdiff(g, v) < 1e-5 * (1 + np.abs(v))).all(), 'yaw read back')
    elif k in ('length', 'width', 'height'):
      seen = sim['valid'].any(-1)
      close(g[seen], v[seen], f'{k} read back', 1e-5, 1e-5)
    else:
      eq(g, v, f'{k} read back')
  require(not np.asarray(tr.valid)[..., HIST + 1:].any(), 'a future pose reads back as valid')
  tl = s.log_traffic_light
  for k, v in sc['tl'].items():
    eq(np.asarray(getattr(tl, k))[..., :HIST + 1], v[..., t - HIST:t + 1], f'light {k} read back')
  require(not np.asarray(tl.valid)[..., HIST + 1:].any(), 'a future light reads back as valid')
  for k, v in sc['rg'].items():
    eq(np.asarray(getattr(s.roadgraph_points, k)), v, f'map {k} read back')
  md, m = sc['md'], sc['md']['is_valid']
  eq(np.asarray(s.object_metadata.is_valid), m, 'is_valid read back')
  for k in ('ids', 'object_types'):
    eq(np.asarray(getattr(s.object_metadata, k))[m], md[k][m], f'{k} read back')
  for k in ('is_sdc', 'is_modeled', 'objects_of_interest'):
    eq(np.asarray(getattr(s.object_metadata, k)), md[k] & m, f'{k} read back')


def labels(c):
  t = c['t']
  v = c['sc']['sim']['valid'][:, t - HIST:t + 1]
  out = [c['kind'] + (' at 10' if t == HIST else ' later')] if v.any() or c['sc']['tl']['valid'].any() else []
  if not c['sc']['md']['is_valid'].all():
    out.append('invalid object')
  return out


@R.law(case(), quick=250, name='exported record')
def exported(c):
  s = gens.to_state(c['sc'], c['t'])
  got = {k: np.asarray(v) for k, v in export(c['kind'])(s).items()}
  check_dict(c, got)
  return labels(c)


@R.law(case(), quick=60, name='export and read back')
def back(c):
  import jax
  import tensorflow as tf
  from waymax.dataloader import womd_dataloader as wl, womd_factories as wf, womd_utils as wu
  s = gens.to_state(c['sc'], c['t'])
  d = wu.simulator_state_to_womd_dict_tensorflow(s, desc(c['kind']))
  require(all(isinstance(v, tf.Tensor) for v in d.values()), 'tensors')
  agg = {k: np.asarray(v) for k, v in wl.preprocess_womd_example(d, aggregate_timesteps=True).items()}
  f = envs.cached('c25b', lambda: jax.jit(wf.simulator_state_from_womd_dict))
  check_back(c, f(agg))
  return labels(c)


@R.law(full_case(), quick=20, name='round trip through a serialised record')
def serialised(c):
  import jax
  from waymax import config as C
  from waymax.dataloader import womd_dataloader as wl, womd_factories as wf
  s = gens.to_state(c['sc'], c['t'])
  got = {k: np.asarray(v) for k, v in export('full')(s).items()}
  check_dict(c, got)
  cfg = C.DatasetConfig(path='', max_num_rg_points=SIZES['full'][2])
  agg = wl.preprocess_serialized_womd_data(records.serialize(got), cfg)
  f = envs.cached('c25b', lambda: jax.jit(wf.simulator_state_from_womd_dict))
  check_back(c, f({k: np.asarray(v) for k, v in agg.items()}))
  return labels(c)


@R.law(st.fixed_dictionaries(dict(t=st.one_of(st.just(HIST), st.integers(0, 13)), how=st.sampled_from(['eager', 'jit']),
                                  sc=gens.scenario(N=3, T=14, P=5, L=2, sim='free'))), quick=60,
       name='validation of the history length')
def history(c):
  import jax
  from jax.experimental import checkify
  from waymax.dataloader import womd_utils as wu
  s = gens.to_state(c['sc'], c['t'])
  fn = lambda s: wu.simulator_state_to_womd_dict(s, desc('small'), validate=True)
  if c['how'] == 'jit':
    f = envs.cached('c25v', lambda: jax.jit(checkify.checkify(fn)))
    err, got = f(s)
    bad = err.get() is not None
  else:
    try:
      fn(s)
      bad = False
    except BaseException as e:
      if not isinstance(e, Exception):
        raise
      bad = True
  require(bad == (c['t'] != HIST), 'history validation at timestep', c['t'], 'rejected' if bad else 'accepted')
  return ['rejected' if bad else 'accepted']
