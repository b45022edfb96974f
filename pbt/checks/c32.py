"""C32: object, light and route slots are interchangeable."""
import numpy as np
from hypothesis import strategies as st
import gens
import meta
from checks.c31 import same_metrics, same_obs, same_traj
from meta import same
from harness import Registry

R = Registry('C32', 'Random scenes and random permutations of the object, light '
             'and path slots; oracle: the permuted result of the original scene. '
             'Non-trivial: the object permutation is not the identity.',
             ['a difference counts when it survives three small shifts of all '
              'positions (ties are not judged)'])


@st.composite
def case(draw, scene=meta.case()):
  c = draw(scene)
  for k, part in (('p', 'log'), ('lp', 'tl'), ('kp', 'paths')):
    c[k] = list(draw(st.permutations(range(c['sc'][part]['x'].shape[0]))))
  return c


def take_traj(t, p):
  return {k: v[..., p, :] for k, v in gens.traj_np(t).items()}


def perm_obs(o, p, lp, rows):
  import jax
  tr = jax.tree_util.tree_map(lambda v: v[..., p, :], o.trajectory)
  tl = jax.tree_util.tree_map(lambda v: v[..., lp, :], o.traffic_lights)
  o = o.replace(trajectory=tr, traffic_lights=tl, is_ego=o.is_ego[..., p])
  if not rows:
    return o
  pick = lambda v: v[np.asarray(p)]
  return o.replace(**{f: jax.tree_util.tree_map(pick, getattr(o, f)) for f in (
      'trajectory', 'traffic_lights', 'is_ego', 'roadgraph_static_points')})


@R.law(case(), quick=320, name='permuted slots')
def permuted(c):
  p, lp, kp = (list(c[k]) for k in ('p', 'lp', 'kp'))

  def compare(c):
    a = meta.outputs(c)
    sc = meta.copy(c['sc'])
    for part in ('log', 'sim', 'md'):
      sc[part] = {k: v[p] for k, v in sc[part].items()}
    sc['tl'] = {k: v[lp] for k, v in sc['tl'].items()}
    sc['paths'] = {k: v[kp] for k, v in sc['paths'].items()}
    act = {k: v[p] for k, v in c['act'].items()}
    b = meta.outputs(c, sc, act)
    ok_env, ok_plan = meta.judged(c, a)
    for key in ('next', 'reset'):
      same_traj(b['env'][key], take_traj(a['env'][key], p), f'{c["kind"]} {key}', 1e-5, ok_env[p])
    same(b['env']['reward'], a['env']['reward'][p], 'reward', None, 1e-4)
    pm = {k: tuple(x[p] if x.ndim else x for x in v) for k, v in a['metrics'].items()}
    same_metrics(b['metrics'], pm, 'metric')
    for k, rows in (('sdc', False), ('obj', True), ('glob', True)):
      same_obs(b[k], perm_obs(a[k], p, lp, rows), f'{k} observation')
    same_traj(b['plan']['next'], take_traj(a['plan']['next'], p), f'planning step ({c["plan"]})', 1e-4, ok_plan[p])
    pm = {k: tuple(x[p] if x.ndim else x for x in v) for k, v in a['plan']['metrics'].items()}
    same_metrics(b['plan']['metrics'], pm, 'planning metric')
    same(b['plan']['reward'], a['plan']['reward'], 'planning reward', None, 1e-4)
    for k, o in b['agents'].items():
      w = a['agents'][k]
      same(o['mask'], w['mask'][p], f'{k}: control mask')
      same(o['on'], w['on'][p], f'{k}: control')
      same(o['data'], w['data'][p], f'{k}: action', np.asarray(o['on'])[:, None], 1e-3)
  meta.run(c, compare)
  if p == sorted(p):
    return []
  return [c['kind'], 'plan ' + (c['plan'] or 'alone')]


@R.law(case(scene=meta.full_case()), quick=25, name='permuted slots of full-size scenes')
def permuted_full(c):
  return permuted(c)
