"""C24: parsing a scenario record preserves its content."""
import functools
import os
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import records
from harness import Registry, Violation, close, eq, require

R = Registry('C24', 'Random records written from the published tf.Example format '
             '(all validity patterns, positions up to 8 km, ids up to 2^31, headings '
             'beyond one turn); oracle: a NumPy reading of the record. Non-trivial: '
             'the record has valid and invalid steps, or options truncate it.',
             ['validity flags are 1 (valid), 0 or -1 (missing)',
              'roadgraph ids are below 2^31; object ids below 2^24'])

CFG = st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**32 - 1), mode=st.sampled_from(['mixed', 'all', 'none', 'sparse']),
    neg=st.booleans(), points=st.sampled_from([1, 5, 40]),
    paths=st.sampled_from([None, None, (1, 3), (3, 4)]),
    objects=st.sampled_from([None, None, 1, 8, 60, 91, 128, 500])))


def config(c, **kw):
  from waymax import config as C
  k, m = c['paths'] or (None, None)
  return C.DatasetConfig(path='', include_sdc_paths=c['paths'] is not None,
                         max_num_rg_points=c['points'], num_paths=k, num_points_per_path=m,
                         max_num_objects=c['objects'], **kw)


def make_record(c):
  k, m = c['paths'] or (None, None)
  return records.record(c['seed'], c['mode'], c['neg'], points=c['points'], paths=k, path_points=m)


def truncate(d, n):
  return {k: v[:n] if k.startswith('state/') else v for k, v in d.items()} if n is not None else d


@R.law(CFG, quick=90, name='record to simulator state')
def parse(c):
  import jax
  from waymax.dataloader import womd_dataloader as wl, womd_factories as wf
  rec = make_record(c)
  cfg = config(c)
  got = wl.preprocess_serialized_womd_data(records.serialize(rec), cfg)
  got = {k: np.asarray(v) for k, v in got.items()}
  want = truncate(records.joined(rec), c['objects'])
  which = got.pop('state/which_time')
  eq(which, np.r_[-np.ones(10), 0, np.ones(80)].astype(np.float32), 'which_time')
  require(set(got) == set(want), 'keys of the parsed record', set(got) ^ set(want))
  for k, v in want.items():
    if k == 'state/all/bbox_yaw':
      close(np.exp(1j * got[k].astype(np.float64)).view(float), np.exp(1j * v.astype(np.float64)).view(float), k, 1e-5)
      require((np.abs(got[k]) <= np.pi + 2e-6).all(), 'heading not wrapped')
      edge = np.abs(np.abs(v) - np.pi) < 1e-3
      inside = (np.abs(v) < np.pi) & ~edge
      close(got[k][inside], v[inside], 'heading already in range', 2e-6)
    else:
      eq(got[k], v, k)
  f = envs.cached(('c24', c['paths'] is not None), lambda: jax.jit(functools.partial(
      wf.simulator_state_from_womd_dict, include_sdc_paths=c['paths'] is not None)))
  got['state/which_time'] = which
  records.check_state(f(got), records.expected_state(want))
  lab = []
  v = want['state/all/valid'] > 0
  if v.any() and not v.all():
    lab.append('mixed validity')
  if c['objects'] is not None and c['objects'] < 128:
    lab.append('truncated')
  if c['paths']:
    lab.append('paths')
  return lab


@R.law(CFG, quick=50, name='separate past, current and future')
def separate(c):
  """Without aggregation every part of the record is readable on its own."""
  from waymax.dataloader import womd_dataloader as wl, womd_factories as wf
  rec = make_record(c)
  got = wl.preprocess_serialized_womd_data(records.serialize(rec), config(c, aggregate_timesteps=False))
  got = {k: np.asarray(v) for k, v in got.items()}
  want = truncate(rec, c['objects'])
  require(set(got) == set(want), 'keys', set(got) ^ set(want))
  for k, v in want.items():
    eq(got[k], v, k)
  for time in ('past', 'current', 'future'):
    exp = records.expected_state(want, time)
    tr = wf.trajectory_from_womd_dict(got, time_key=time)
    for k, v in exp['log'].items():
      if v.dtype == np.float64:
        close(getattr(tr, k), v, f'{time} {k}', 1e-5, 1e-5)
      else:
        eq(np.asarray(getattr(tr, k)), v, f'{time} {k}')
    tl = wf.traffic_lights_from_womd_dict(got, time_key=time)
    for k, v in exp['tl'].items():
      eq(np.asarray(getattr(tl, k)), v, f'{time} light {k}')
  return ['parts'] if c['mode'] in ('mixed', 'sparse') else []


# objects, steps, lights, map points, paths, points per path
SIZES = [(3, 4, 2, 5, 2, 3), (1, 1, 1, 1, 1, 1)]
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


@st.composite
def generic(draw):
  src = gens.Src(draw, 8)
  batch = draw(st.sampled_from([(), (2,), (1, 3)]))
  # A few shapes: every new one costs a compilation of every operation.
  sizes = draw(st.sampled_from(SIZES if not THOROUGH else SIZES + [
      (1, 3, 4, 5, 3, 2), (5, 1, 2, 2, 1, 3), (4, 4, 4, 4, 4, 4)]))
  return dict(seed=int.from_bytes(src.u8(4).tobytes(), 'little'), batch=batch, sizes=sizes,
              time=draw(st.sampled_from(['all', 'past', 'current', 'future'])),
              paths=draw(st.booleans()), mode=draw(st.sampled_from(['mixed', 'all', 'none', 'sparse'])))


def generic_dict(c):
  """A dict in the aggregated format, of any sizes and batch dims."""
  n, t, l, p, k, m = c['sizes']
  r = np.random.Generator(np.random.PCG64(c['seed']))
  rows = []
  for _ in range(int(np.prod(c['batch'])) if c['batch'] else 1):
    rec = records.record(int(r.integers(2**31)), c['mode'], True, objects=n, points=p, lights=l,
                         paths=k if c['paths'] else None, path_points=m)
    j = records.joined(rec)
    d = {}
    for key, v in j.items():
      if '/all/' in key:
        if key.endswith('bbox_yaw'):
          v = ((v + np.pi) % (2 * np.pi) - np.pi).astype(np.float32)
        v = v[:t] if key.startswith('traffic') else v[:, :t]
        key = key.replace('/all/', f"/{c['time']}/")
      d[key] = v
    rows.append(d)
  return {k: np.stack([d[k] for d in rows]).reshape(c['batch'] + rows[0][k].shape) for k in rows[0]}


@R.law(generic(), quick=70, name='factories on any shape and batch')
def factories(c):
  from waymax.dataloader import womd_factories as wf
  d = generic_dict(c)
  keep = {k: v.copy() for k, v in d.items()}
  s = wf.simulator_state_from_womd_dict(d, include_sdc_paths=c['paths'], time_key=c['time'])
  exp = records.expected_state(d, c['time'])
  records.check_state(s, exp, c['batch'])
  for k in keep:
    eq(d[k], keep[k], f'input {k} mutated')
  if c['paths']:  # not asked for: not included
    s2 = wf.simulator_state_from_womd_dict(d, time_key=c['time'])
    require(s2.sdc_paths is None, 'paths included unasked')
  return ['batched' if c['batch'] else 'single']


@R.law(st.fixed_dictionaries(dict(
    objects=st.integers(1, 300), points=st.integers(1, 40000), lights=st.integers(1, 40),
    paths=st.sampled_from([None, 1, 7, 45]), path_points=st.sampled_from([None, 1, 9, 800]),
    include=st.booleans(), key=st.sampled_from(['all', 'past', 'log', '', 'Current']))),
       quick=150, name='feature table and rejected options')
def table(c):
  from waymax.dataloader import womd_factories as wf, womd_utils as wu
  kw = dict(max_num_objects=c['objects'], max_num_rg_points=c['points'], num_tls=c['lights'],
            include_sdc_paths=c['include'], num_paths=c['paths'], num_points_per_path=c['path_points'])
  bad = c['include'] and (c['paths'] is None or c['path_points'] is None)
  try:
    got = wu.get_features_description(**kw)
  except ValueError:
    require(bad, 'valid options rejected', c)
  else:
    require(not bad, 'path options without sizes accepted', c)
    want = records.description(c['objects'], c['points'], c['lights'],
                               *((c['paths'], c['path_points']) if c['include'] else ()))
    require(set(got) == set(want), 'feature keys', set(got) ^ set(want))
    for k, (shape, dt) in want.items():
      require(tuple(got[k].shape) == shape and got[k].dtype.name == dt, 'feature', k, got[k], shape, dt)
  for fn in (wf.simulator_state_from_womd_dict, wf.traffic_lights_from_womd_dict):
    if c['key'] in ('all', 'past'):
      continue
    try:
      fn({}, time_key=c['key'])
    except ValueError:
      continue
    raise Violation(f"time_key {c['key']!r} accepted")
  return ['rejected'] if bad else ['described']


CODES = dict(
    MapElementIds='LANE_UNDEFINED=0 LANE_FREEWAY=1 LANE_SURFACE_STREET=2 LANE_BIKE_LANE=3 ROAD_LINE_UNKNOWN=5 '
    'ROAD_LINE_BROKEN_SINGLE_WHITE=6 ROAD_LINE_SOLID_SINGLE_WHITE=7 ROAD_LINE_SOLID_DOUBLE_WHITE=8 '
    'ROAD_LINE_BROKEN_SINGLE_YELLOW=9 ROAD_LINE_BROKEN_DOUBLE_YELLOW=10 ROAD_LINE_SOLID_SINGLE_YELLOW=11 '
    'ROAD_LINE_SOLID_DOUBLE_YELLOW=12 ROAD_LINE_PASSING_DOUBLE_YELLOW=13 ROAD_EDGE_UNKNOWN=14 '
    'ROAD_EDGE_BOUNDARY=15 ROAD_EDGE_MEDIAN=16 STOP_SIGN=17 CROSSWALK=18 SPEED_BUMP=19',
    ObjectTypeIds='UNSET=0 VEHICLE=1 PEDESTRIAN=2 CYCLIST=3 OTHER=4',
    TrafficLightStates='UNKNOWN=0 ARROW_STOP=1 ARROW_CAUTION=2 ARROW_GO=3 STOP=4 CAUTION=5 GO=6 '
    'FLASHING_STOP=7 FLASHING_CAUTION=8')


@R.law(st.sampled_from([(k, *p.split('=')) for k, v in CODES.items() for p in v.split()]), quick=80,
       name='codes of the record format', rule='the named code of the WOMD format; non-trivial: always')
def codes(c):
  from waymax import datatypes
  from waymax.datatypes import object_state, roadgraph, traffic_lights
  table, name, code = c
  enum = next(getattr(m, table) for m in (datatypes, object_state, roadgraph, traffic_lights) if hasattr(m, table))
  require(name in enum.__members__, 'no', name, 'in', table)
  eq(int(enum[name]), int(code), f'{table}.{name}')
  require(enum(int(code)) is enum[name], table, code, 'is', enum(int(code)))
  return [table]
