"""C33: data marked invalid never influences anything valid."""
import numpy as np
from hypothesis import strategies as st
import gens
import meta
import ref
from checks.c31 import same_metrics, same_obs, same_traj
from meta import same
from harness import Registry

R = Registry('C33', 'Random scenes with gaps in every ingredient. Oracle: the same '
             'scene with other (finite) contents in its invalid entries, and the '
             'same scene with extra invalid objects, map points, lights and '
             'paths appended. Non-trivial: an invalid entry was changed or added.',
             ['contents are finite', 'invalid map points have ids of their own '
              '(the continuity of road edges is told by ids)',
              'the first logged timestep is kept: overlap at the start is '
              'computed from boxes whether valid or not',
              'the end of the logged drive of the SDC is kept: progress is '
             'measured against it',
             'the wrong-way metric is judged for a valid SDC only (it does not '
              'look at the validity of the SDC)'])
SIZES = ('length', 'width', 'height')


def prepared(sc):
  sc = meta.copy(sc)
  inv = ~sc['rg']['valid']
  sc['rg']['ids'][inv] = 500 + np.flatnonzero(inv)
  return sc


def garbled(sc, src):
  """Other contents in every invalid entry."""
  sc = meta.copy(sc)
  n = 0
  for part in ('log', 'sim'):
    inv = ~sc[part]['valid']
    if part == 'log':
      inv = inv.copy()
      inv[:, 0] = False
      inv[sc['md']['is_sdc'], -1] = False  # progress is measured against it
    n += int(inv.sum())
    for k in ref.FIELDS:
      sc[part][k] = np.where(inv, src.sym(inv.shape, 30), sc[part][k])
    if part == 'log':  # elevation and sizes are carried over from the current state
      sc[part]['z'] = np.where(inv, src.sym(inv.shape, 30), sc[part]['z'])
      for k in SIZES:
        sc[part][k] = np.where(inv, src.unit(inv.shape, .1, 20), sc[part][k])
  for part in ('rg', 'tl', 'paths'):
    d = sc[part]
    inv = ~d['valid']
    n += int(inv.sum())
    for k in d:
      if k in ('valid', 'ids', 'on_route'):
        continue
      if d[k].dtype == np.float32:
        d[k] = np.where(inv, src.sym(inv.shape, 30), d[k])
      elif k == 'types':
        d[k] = np.where(inv, np.asarray([15, 16, 1, 2, 15], np.int32)[src.ints(inv.shape, 0, 4)], d[k])
      else:
        d[k] = np.where(inv, src.ints(inv.shape, 0, 8), d[k]).astype(d[k].dtype)
  return sc, n


def padded(sc, src):
  """Two more objects, map points, lights and paths; none of them valid."""
  sc = meta.copy(sc)
  for part in ('log', 'sim'):
    d = sc[part]
    for k in d:
      shp = (2,) + d[k].shape[1:]
      if k == 'valid':
        extra = np.zeros(shp, bool)
      elif k == 'timestamp_micros':
        extra = np.full(shp, -1, d[k].dtype)
      elif k in SIZES:
        extra = src.unit(shp, .1, 9)
      else:
        extra = src.sym(shp, 30)
      d[k] = np.concatenate([d[k], extra.astype(d[k].dtype)])
  if 'log' in sc:  # keep the padding clear of the others at the start
    sc['log']['x'][-2:, 0] = [900, 950]
  for k, v in sc['md'].items():
    extra = np.full(2, -1, v.dtype) if v.dtype != bool else np.zeros(2, bool)
    sc['md'][k] = np.concatenate([v, extra])
  for part, axis in (('rg', 0), ('tl', 0), ('paths', 0)):
    d = sc[part]
    for k in d:
      shp = (2,) + d[k].shape[1:]
      extra = src.sym(shp, 30) if d[k].dtype == np.float32 else np.zeros(shp, d[k].dtype)
      if k == 'ids' and part == 'rg':
        extra = np.asarray([901, 902])
      if k == 'types':
        extra = np.asarray([15, 16])
      if k == 'on_route':
        extra = np.ones(shp, bool)
      d[k] = np.concatenate([d[k], extra.astype(d[k].dtype)], axis)
  return sc


@st.composite
def case(draw, scene=meta.case()):
  c = draw(scene)
  c['sc'] = prepared(c['sc'])
  src = (gens.Src if c['sc']['log']['x'].shape[0] == meta.N else gens.SeedSrc)(draw, 1200)
  c['garbled'], c['changed'] = garbled(c['sc'], src)
  c['src'] = dict(pad=padded(c['sc'], src))
  return c


def alike(c, a, b):
  """b's first n objects must show what a shows, wherever it is valid."""
  import jax
  n, lights = (c['sc'][k]['x'].shape[0] for k in ('log', 'tl'))
  cut = lambda t: jax.tree_util.tree_map(lambda v: v[..., :n, :], t)
  t = c['sc']['timestep']
  valid = c['sc']['sim']['valid'][:, t]
  sdc = c['sc']['md']['is_sdc']
  ok_env, ok_plan = meta.judged(c, a)
  # A controlled object that is absent now and enters moves from where it is.
  steered = sdc if meta.CTRL[c['kind']][0] == 'SDC' else ~(valid & False)
  ok_env = ok_env & (valid | ~steered)
  ok_plan = ok_plan & (valid | ~sdc)
  for key in ('next', 'reset'):
    same_traj(cut(b['env'][key]), a['env'][key], f'{c["kind"]} {key}', 1e-5, ok_env)
  rewarded = valid if valid[sdc].all() else valid & ~sdc
  same(b['env']['reward'][:n], a['env']['reward'], 'reward', rewarded, 1e-4)
  for x, y in zip(b['env']['flags'], a['env']['flags']):
    same(x, y, 'episode flags')
  def cut_metrics(m):
    return {k: tuple(x[:n] if x.ndim else x for x in v) for k, v in m.items()}
  ma, mb = dict(a['metrics']), cut_metrics(b['metrics'])
  for k in list(ma):
    if ma[k][0].ndim:
      same(mb[k][1], ma[k][1], k + ' valid', None if k != 'offroad' else valid)
      same(mb[k][0], ma[k][0], k, ma[k][1] & valid, 1e-4)
      del ma[k]
    elif k == 'sdc_wrongway' and not valid[sdc].all():
      del ma[k]
  same_metrics({k: mb[k] for k in ma}, ma, 'metric')
  sub = lambda o: o.replace(trajectory=cut(o.trajectory), is_ego=o.is_ego[..., :n],
                            traffic_lights=jax.tree_util.tree_map(lambda v: v[..., :lights, :], o.traffic_lights))
  for k, rows in (('sdc', False), ('obj', True), ('glob', True)):
    o, ref_o = sub(b[k]), a[k]
    if rows and n != b['env']['reward'].shape[0]:
      f = lambda v: v[:n]
      o = o.replace(**{g: jax.tree_util.tree_map(f, getattr(o, g)) for g in (
          'trajectory', 'traffic_lights', 'is_ego', 'roadgraph_static_points')})
    if rows:  # only what a present object observes
      o, ref_o = ([t.replace(**{g: getattr(t, g).replace(valid=getattr(t, g).valid & valid.reshape(
          (-1,) + (1,) * (getattr(t, g).valid.ndim - 1))) for g in (
              'trajectory', 'traffic_lights', 'roadgraph_static_points')}) for t in (o, ref_o)])
    same_obs(o, ref_o, f'{k} observation')
  same_traj(cut(b['plan']['next']), a['plan']['next'], f'planning step ({c["plan"]})', 1e-4, ok_plan)
  if valid[sdc].all():
    same_metrics(cut_metrics(b['plan']['metrics']), a['plan']['metrics'], 'planning metric')
    same(b['plan']['reward'], a['plan']['reward'], 'planning reward', None, 1e-4)
  for k, o in b['agents'].items():
    w = a['agents'][k]
    same(o['mask'][:n], w['mask'], f'{k}: control mask')
    same(o['on'][:n] & valid, w['on'] & valid, f'{k}: control')
    same(o['data'][:n], w['data'], f'{k}: action', (w['on'] & valid)[:, None], 1e-3)


@R.law(case(), quick=300, name='contents of invalid entries')
def contents(c):
  a, b = meta.outputs(c), meta.outputs(c, c['garbled'])
  try:
    alike(c, a, b)
  except meta.Diff as e:
    from harness import Violation
    raise Violation(str(e)) from None
  return [c['kind'], 'plan ' + (c['plan'] or 'alone')] if c['changed'] else []


@R.law(case(), quick=200, name='padding')
def padding(c):
  n = c['sc']['log']['x'].shape[0] + 2
  act = {k: np.concatenate([v, np.ones((2,) + v.shape[1:], v.dtype)]) for k, v in c['act'].items()}
  a = meta.outputs(c)
  b = meta.outputs(c, c['src']['pad'], act, n=n)
  try:
    alike(c, a, b)
  except meta.Diff as e:
    from harness import Violation
    raise Violation(str(e)) from None
  return [c['kind'], 'plan ' + (c['plan'] or 'alone')]


@R.law(case(scene=meta.full_case()), quick=25, name='invalid contents and padding of full-size scenes')
def full(c):
  return contents(c) + padding(c)
