"""Synthetic motion-dataset records, written from the published tf.Example
format and not from the repository's feature table."""
import numpy as np

STEPS = {'past': 10, 'current': 1, 'future': 80}
FLOAT_STATE = ('bbox_yaw', 'height', 'length', 'vel_yaw', 'speed', 'velocity_x',
               'velocity_y', 'width', 'x', 'y', 'z')
INT_STATE = ('timestamp_micros', 'valid')


def description(objects=128, points=30000, lights=16, paths=None, path_points=None):
  """{key: (shape, dtype)} of the published format."""
  d = {}
  for k in ('dir', 'xyz'):
    d[f'roadgraph_samples/{k}'] = ((points, 3), 'float32')
  for k in ('id', 'type', 'valid'):
    d[f'roadgraph_samples/{k}'] = ((points, 1), 'int64')
  for k in ('id', 'type'):
    d[f'state/{k}'] = ((objects,), 'float32')
  for k in ('is_sdc', 'tracks_to_predict', 'objects_of_interest'):
    d[f'state/{k}'] = ((objects,), 'int64')
  for t, n in STEPS.items():
    for k in FLOAT_STATE:
      d[f'state/{t}/{k}'] = ((objects, n), 'float32')
    for k in INT_STATE:
      d[f'state/{t}/{k}'] = ((objects, n), 'int64')
    for k in ('state', 'valid', 'id'):
      d[f'traffic_light_state/{t}/{k}'] = ((n, lights), 'int64')
    for k in 'xyz':
      d[f'traffic_light_state/{t}/{k}'] = ((n, lights), 'float32')
    d[f'traffic_light_state/{t}/timestamp_micros'] = ((n,), 'int64')
  if paths is not None:
    d['path_samples/xyz'] = ((paths, path_points, 3), 'float32')
    d['path_samples/valid'] = ((paths, path_points), 'int64')
    d['path_samples/id'] = ((paths, path_points), 'int64')
    d['path_samples/arc_length'] = ((paths, path_points), 'float32')
    d['path_samples/on_route'] = ((paths, 1), 'int64')
  return d


def record(seed, valid_mode='mixed', negative_flags=False, **kw):
  """Numpy content of a random record; deterministic in the arguments."""
  r = np.random.Generator(np.random.PCG64(seed))
  out = {}
  desc = description(**kw)
  n = desc['state/id'][0][0]
  scale = r.choice([1.0, 30.0, 8000.0])
  few_ids, lowest = bool(r.integers(0, 2)), int(r.integers(0, 2))
  for k, (shape, dt) in desc.items():
    leaf = k.split('/')[-1]
    if leaf == 'valid':
      v = (r.random(shape) < {'mixed': .6, 'all': 2, 'none': -1, 'sparse': .06}[valid_mode]).astype(np.int64)
      if valid_mode == 'mixed' and k.startswith('state/'):
        v *= (r.random((n, 1)) < .8)
      if negative_flags and (k.startswith('state/') or k.startswith('traffic')):
        v = np.where((v == 0) & (r.random(shape) < .5), -1, v)
    elif leaf == 'bbox_yaw':
      v = r.uniform(-9, 9, shape)
      v = np.where(r.random(shape) < .1, r.choice([np.pi, -np.pi, 3 * np.pi, 0], shape), v)
    elif leaf == 'on_route':
      v = r.integers(0, 2, shape)
    elif k == 'state/id':
      v = r.permutation(5000)[:n] - lowest
    elif k == 'state/type':
      v = r.integers(0, 5, shape)
    elif k == 'state/is_sdc':
      v = (np.arange(n) == r.integers(0, n)).astype(np.int64)
    elif k in ('state/tracks_to_predict', 'state/objects_of_interest'):
      v = r.integers(-1, 2, shape)
    elif leaf == 'timestamp_micros':
      v = r.integers(0, 9_000_000, shape)
    elif leaf == 'state':
      v = r.integers(0, 9, shape)
    elif leaf == 'type':
      v = r.integers(0, 20, shape)
    elif leaf == 'id':
      v = r.integers(0, 2**31 - 1, shape)
      if few_ids:  # including 0 and a missing one
        v = v % 4 - lowest
    elif leaf in ('length', 'width', 'height'):
      v = r.uniform(.5, 8, shape)
    elif leaf == 'arc_length':
      v = np.cumsum(r.uniform(0, 2, shape), -1)
    else:
      v = r.normal(0, scale, shape)
    out[k] = np.asarray(v).astype(dt)
  return out


def serialize(rec):
  import tensorflow as tf
  feats = {}
  for k, v in rec.items():
    if v.dtype.kind == 'f':
      feats[k] = tf.train.Feature(float_list=tf.train.FloatList(value=v.reshape(-1)))
    else:
      feats[k] = tf.train.Feature(int64_list=tf.train.Int64List(value=v.reshape(-1)))
  return tf.train.Example(features=tf.train.Features(feature=feats)).SerializeToString()


def joined(rec):
  """Past, current and future of every temporal feature, in time order."""
  out = {}
  for k, v in rec.items():
    parts = k.split('/')
    if len(parts) == 3 and parts[1] in STEPS:
      if parts[1] != 'current':
        continue
      three = [rec[f'{parts[0]}/{t}/{parts[2]}'] for t in ('past', 'current', 'future')]
      axis = 0 if parts[0] == 'traffic_light_state' else 1
      out[f'{parts[0]}/all/{parts[2]}'] = np.concatenate(three, axis)
    else:
      out[k] = v
  return out


def expected_state(d, time='all'):
  """Expected leaves of the simulator state of a (batched) aggregated dict."""
  p = f'state/{time}/'
  valid = d[p + 'valid'] > 0
  log = {'x': d[p + 'x'], 'y': d[p + 'y'], 'z': d[p + 'z'], 'vel_x': d[p + 'velocity_x'],
         'vel_y': d[p + 'velocity_y'], 'yaw': d[p + 'bbox_yaw'], 'valid': valid,
         'timestamp_micros': d[p + 'timestamp_micros']}
  cnt = valid.sum(-1, keepdims=True)
  for k in ('length', 'width', 'height'):
    v = d[p + k].astype(np.float64)
    mean = np.where(cnt > 0, np.where(valid, v, 0).sum(-1, keepdims=True) / np.maximum(cnt, 1), -1)
    log[k] = np.broadcast_to(mean, v.shape)
  t = f'traffic_light_state/{time}/'
  sw = lambda v: np.swapaxes(v, -1, -2)
  tl = {'x': sw(d[t + 'x']), 'y': sw(d[t + 'y']), 'z': sw(d[t + 'z']), 'state': sw(d[t + 'state']),
        'lane_ids': sw(d[t + 'id']), 'valid': sw(d[t + 'valid'] > 0)}
  md = {'ids': d['state/id'], 'object_types': d['state/type'], 'is_sdc': d['state/is_sdc'] == 1,
        'is_modeled': d['state/tracks_to_predict'] == 1,
        'is_valid': d['state/tracks_to_predict'] != -1,
        'objects_of_interest': d['state/objects_of_interest'] == 1,
        'is_controlled': np.zeros(d['state/id'].shape, bool)}
  r = 'roadgraph_samples/'
  rg = {'x': d[r + 'xyz'][..., 0], 'y': d[r + 'xyz'][..., 1], 'z': d[r + 'xyz'][..., 2],
        'dir_x': d[r + 'dir'][..., 0], 'dir_y': d[r + 'dir'][..., 1], 'dir_z': d[r + 'dir'][..., 2],
        'types': d[r + 'type'][..., 0], 'ids': d[r + 'id'][..., 0], 'valid': d[r + 'valid'][..., 0] > 0}
  paths = None
  if 'path_samples/xyz' in d:
    q = 'path_samples/'
    paths = {'x': d[q + 'xyz'][..., 0], 'y': d[q + 'xyz'][..., 1], 'z': d[q + 'xyz'][..., 2],
             'ids': d[q + 'id'], 'valid': d[q + 'valid'] > 0, 'arc_length': d[q + 'arc_length'],
             'on_route': d[q + 'on_route'] > 0}
  return dict(log=log, tl=tl, md=md, rg=rg, paths=paths)


def check_state(s, exp, batch=()):
  from harness import close, eq, require
  s.validate()
  require(s.shape == batch, 'shape', s.shape)
  eq(np.asarray(s.timestep), np.zeros(batch, np.int32), 'timestep')
  for k, v in exp['log'].items():
    got = np.asarray(getattr(s.log_trajectory, k))
    if k in ('length', 'width', 'height'):
      close(got, v, f'log {k}', 1e-5, 1e-5)
      require((got == got[..., :1]).all(), f'one {k} per object')
    elif k == 'yaw':
      close(np.cos(got), np.cos(v.astype(np.float64)), 'log yaw', 1e-5)
      close(np.sin(got), np.sin(v.astype(np.float64)), 'log yaw', 1e-5)
      require(((got >= -np.pi - 2e-6) & (got <= np.pi + 2e-6)).all(), 'wrapped yaw', got.min(), got.max())
    else:
      eq(got, v.astype(got.dtype) if v.dtype.kind != 'f' else v, f'log {k}')
    sim = np.asarray(getattr(s.sim_trajectory, k))
    eq(sim[..., 0], got[..., 0], f'sim {k} at 0')
    require(not sim[..., 1:].any(), f'sim {k} after 0')
    require(sim.dtype == got.dtype, 'dtype')
  for part, obj in (('tl', s.log_traffic_light), ('md', s.object_metadata), ('rg', s.roadgraph_points)):
    for k, v in exp[part].items():
      eq(np.asarray(getattr(obj, k)), v.astype(np.int32) if v.dtype.kind == 'i' or k in (
          'ids', 'object_types') else v, f'{part} {k}')
  if exp['paths'] is None:
    require(s.sdc_paths is None, 'no SDC paths')
  else:
    for k, v in exp['paths'].items():
      eq(np.asarray(getattr(s.sdc_paths, k)), v.astype(np.int32) if v.dtype.kind == 'i' else v, f'path {k}')
