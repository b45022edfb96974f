"""Shared helpers for environment-level laws."""
import numpy as np
from hypothesis import strategies as st
import gens
import ref

CTRLS = ('SDC', 'MODELED', 'VALID')
DYNS = {
    'bicycle': ref.Dyn('bicycle'),
    'bicycle_norm': ref.Dyn('bicycle', normalize_actions=True, max_accel=4.0,
                            max_steering=0.2),
    'delta_global': ref.Dyn('delta_global'),
    'delta_local': ref.Dyn('delta_local'),
    'state': ref.Dyn('state'),
}
_CACHE = {}


def config(ctrl='SDC', inj=True, init=2, N=4, **kw):
  from waymax import config as C
  return C.EnvironmentConfig(
      max_num_objects=N, init_steps=init, controlled_object=C.ObjectType[ctrl],
      allow_new_objects_after_warmup=inj, **kw)


def env(dyn, ctrl='SDC', inj=True, init=2, N=4):
  from waymax import env as E
  k = ('env', dyn, ctrl, inj, init, N)
  if k not in _CACHE:
    _CACHE[k] = E.BaseEnvironment(DYNS[dyn].make(), config(ctrl, inj, init, N))
  return _CACHE[k]


def step(dyn, ctrl, inj, init, N, key=()):
  """Jitted env.step."""
  import jax
  k = ('step', dyn, ctrl, inj, init, N) + tuple(key)
  if k not in _CACHE:
    _CACHE[k] = jax.jit(env(dyn, ctrl, inj, init, N).step)
  return _CACHE[k]


def reset(init, N):
  import jax
  k = ('reset', init, N)
  if k not in _CACHE:
    _CACHE[k] = jax.jit(env('bicycle', 'SDC', True, init, N).reset)
  return _CACHE[k]


def cached(key, make):
  if key not in _CACHE:
    _CACHE[key] = make()
  return _CACHE[key]


@st.composite
def actions(draw, dim, shape, over=True, lim=None):
  """Raw action data (shape + (dim,)) and validity (shape + (1,))."""
  n = int(np.prod(shape))
  src = gens.Src(draw, 2 * n * dim + n)
  scale = draw(st.sampled_from([0.2, 1.0, 5.0, 40.0] if over else [0.2, 1.0]))
  data = src.sym(tuple(shape) + (dim,), 1.0) * scale
  if lim is not None:
    lim = np.where(np.isfinite(lim), lim, 50.0)
    data = src.sym(tuple(shape) + (dim,), 1.0) * lim
  kind = draw(st.sampled_from(['all', 'mixed', 'mixed', 'all']))
  valid = np.ones(tuple(shape) + (1,), bool)
  if kind == 'mixed':
    valid = src.bits(tuple(shape) + (1,), 180)
  return dict(data=np.asarray(data, np.float32), valid=valid)


def to_action(a):
  import jax.numpy as jnp
  from waymax import datatypes
  return datatypes.Action(data=jnp.asarray(a['data']), valid=jnp.asarray(a['valid']))


TRAJ_FIELDS = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid',
               'timestamp_micros', 'length', 'width', 'height')


def shift_world(draw, sc):
  """Sometimes moves the whole scene far from the origin (real map coordinates)."""
  off = draw(st.sampled_from([(0, 0), (0, 0), (1500.0, -700.0), (-8000.0, 3000.0)]))
  if off == (0, 0):
    return sc
  for part in ('log', 'sim'):
    if part in sc:
      sc[part]['x'] = sc[part]['x'] + np.float32(off[0])
      sc[part]['y'] = sc[part]['y'] + np.float32(off[1])
  for part in ('rg', 'tl', 'paths'):
    if sc.get(part) is not None:
      sc[part]['x'] = sc[part]['x'] + np.float32(off[0])
      sc[part]['y'] = sc[part]['y'] + np.float32(off[1])
  return sc
