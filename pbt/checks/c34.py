"""C34: nothing is decided with hindsight: results do not depend on the future."""
import numpy as np
from hypothesis import strategies as st
import gens
import meta
import ref
from harness import Registry, Violation
from meta import Diff, same

R = Registry('C34', 'Random scenes whose future (simulated columns after the '
             'current index, logged columns after the next one, lights after the '
             'current one) is replaced. Oracle: bit-equality of everything that '
             'belongs to the present. Non-trivial: the future was changed.',
             ['progression uses the logged end by definition, route-following and '
              'expert actors the logged future',
              'the validity of the log is kept where it decides who is controlled'])
FUTURE_METRICS = ('sdc_progression',)


@st.composite
def case(draw, scene=meta.case()):
  c = draw(scene)
  c['plan'] = draw(st.sampled_from(['', 'frozen']))
  sc = c['sc']
  t = sc['timestep']
  src = (gens.Src if c['sc']['log']['x'].shape[0] == meta.N else gens.SeedSrc)(draw, 900)
  o = meta.copy(sc)
  T = sc['log']['x'].shape[1]
  keep_valid = c['kind'] in ('bicycle', 'bicycle_norm', 'delta_local') or draw(st.booleans())
  for part, first in (('sim', t + 1), ('log', t + 2)):
    sl = np.arange(T) >= first
    for k in ref.FIELDS + ('z', 'length', 'width', 'height'):
      o[part][k] = np.where(sl, src.sym(o[part][k].shape, 25) if k not in ('length', 'width', 'height')
                            else src.unit(o[part][k].shape, .2, 9), o[part][k])
    if part == 'sim' or not keep_valid:
      o[part]['valid'] = np.where(sl, src.bits(o[part]['valid'].shape), o[part]['valid'])
    o[part]['timestamp_micros'] = np.where(sl, src.ints(sl.shape, 0, 9999), o[part]['timestamp_micros']).astype(np.int32)
  sl = np.arange(T) > t
  for k in ('x', 'y', 'z'):
    o['tl'][k] = np.where(sl, src.sym(o['tl'][k].shape, 25), o['tl'][k])
  o['tl']['state'] = np.where(sl, src.ints(sl.shape, 0, 8), o['tl']['state']).astype(np.int32)
  o['tl']['valid'] = np.where(sl, src.bits(o['tl']['valid'].shape), o['tl']['valid'])
  c['other'] = o
  return c


def bit(a, b, what):
  import jax
  la = jax.tree_util.tree_flatten_with_path(a)[0]
  for (p, x), y in zip(la, jax.tree_util.tree_leaves(b)):
    same(x, y, what + jax.tree_util.keystr(p))


def cols(traj, n):
  import jax
  return jax.tree_util.tree_map(lambda v: v[..., :n], traj)


@R.law(case(), quick=320, name='changed future')
def future(c):
  t = c['sc']['timestep']
  a, b = meta.outputs(c), meta.outputs(c, c['other'])
  try:
    if t:  # an episode starts at 1, the end of the warm-up
      bit(cols(a['env']['next'], t + 2), cols(b['env']['next'], t + 2), f'{c["kind"]} step')
      bit(cols(a['plan']['next'], t + 2), cols(b['plan']['next'], t + 2), 'planning step')
    bit(cols(a['env']['reset'], 2), cols(b['env']['reset'], 2), 'reset')
    bit(a['env']['flags'], b['env']['flags'], 'episode flags')
    if t:
      bit(a['env']['reward'], b['env']['reward'], 'reward')
      bit(a['plan']['reward'], b['plan']['reward'], 'planning reward')
    bit(a['plan']['metrics'], b['plan']['metrics'], 'planning metrics')
    for k in a['metrics']:
      if k not in FUTURE_METRICS:
        bit(a['metrics'][k], b['metrics'][k], k)
    for k in ('sdc', 'obj', 'glob'):
      bit(a[k], b[k], f'{k} observation')
    for k in ('const', 'frozen', 'speed'):
      if k != 'const':
        bit(a['agents'][k], b['agents'][k], f'{k} actor')
  except Diff as e:
    raise Violation(str(e)) from None
  return [c['kind']]


@R.law(case(scene=meta.full_case()), quick=25, name='changed future of full-size scenes')
def future_full(c):
  return future(c)
