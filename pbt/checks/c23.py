"""C23: actors control exactly the objects asked for, with the promised motion."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, Violation, close, eq, require, tree_eq

R = Registry('C23', 'Random scenes, control masks, speeds, dynamics models and '
             'lists of actor outputs; oracles: the logged next pose, '
             'straight-line motion, and a last-actor-wins merge. Non-trivial: '
             'some controlled object is valid (motion laws) or some object is '
             'controlled by several actors (merge).',
             ['actions that the dynamics model has to clip promise no exact motion'])
N, T = 4, 5
DYN = ('bicycle', 'delta_global', 'delta_local', 'state')


def mask_fn(name):
  import jax.numpy as jnp
  return {'sdc': lambda s: s.object_metadata.is_sdc,
          'all': lambda s: jnp.ones_like(s.object_metadata.is_sdc),
          'none': lambda s: jnp.zeros_like(s.object_metadata.is_sdc),
          'modeled': lambda s: s.object_metadata.is_modeled,
          'valid': lambda s: s.current_sim_trajectory.valid[..., 0],
          'other': lambda s: ~s.object_metadata.is_sdc & s.object_metadata.objects_of_interest}[name]


def mask_np(name, sc, t):
  md = sc['md']
  return {'sdc': md['is_sdc'], 'all': np.ones_like(md['is_sdc']),
          'none': np.zeros_like(md['is_sdc']), 'modeled': md['is_modeled'],
          'valid': sc['sim']['valid'][..., t],
          'other': ~md['is_sdc'] & md['objects_of_interest']}[name]


@st.composite
def case(draw):
  nb = draw(st.sampled_from([0, 0, 0, 2]))
  t = draw(st.integers(0, T - 2))
  scs = []
  for _ in range(nb or 1):
    sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
    src = gens.Src(draw, 40)
    for i in range(N):
      how = src.u8(1)[0] % 4
      if how == 3:  # a car driving along its heading, gently steered
        u = src.sym((5,), 1.0)
        v, yaw = 8 + 7 * u[0], np.float32(np.pi * u[1])
        for k, val in (('yaw', yaw), ('vel_x', v * np.cos(yaw)), ('vel_y', v * np.sin(yaw))):
          sc['sim'][k][i, t] = val
        v1, yaw1 = v + .59 * u[2], yaw + .29 * u[3] * v * .1
        for k, val in (('x', sc['sim']['x'][i, t] + v * .1 * np.cos(yaw)),
                       ('y', sc['sim']['y'][i, t] + v * .1 * np.sin(yaw)), ('yaw', yaw1),
                       ('vel_x', v1 * np.cos(yaw1)), ('vel_y', v1 * np.sin(yaw1))):
          sc['log'][k][i, t + 1] = val
        sc['sim']['valid'][i, t] = True
        sc['log']['valid'][i, t + 1] = src.u8(1)[0] % 4 > 0
      elif how:  # current pose within reach of the next logged one
        d = src.sym((3,), [0, 4.0, .3][how])
        for k, n in (('x', 0), ('y', 1), ('yaw', 2)):
          sc['sim'][k][i, t] = sc['log'][k][i, t + 1] + d[n]
        sc['sim']['valid'][i, t] = True
        sc['log']['valid'][i, t + 1] = src.u8(1)[0] % 4 > 0
    scs.append(sc)
  return dict(sc=gens.stack_cases(scs) if nb else scs[0], b=nb, t=t,
              dyn=draw(st.sampled_from(DYN)), mask=draw(st.sampled_from(
                  ['sdc', 'all', 'none', 'modeled', 'valid', 'other'])),
              speed=draw(st.sampled_from([None, 0.0, 3.0, 15.0])))


def drive(kind):
  """Jitted: apply the actions of every object for one step."""
  def make():
    import jax
    d = envs.DYNS[kind].make()
    return jax.jit(lambda s, a: d.compute_update(a, s.current_sim_trajectory))
  return envs.cached(('c23d', kind), make)


def inbounds(d, kind, raw, margin):
  return (np.abs(raw) <= d.bound - margin).all(-1)


@R.law(case(), quick=300, name='expert actor')
def expert(c):
  def make():
    import jax
    from waymax.agents import expert as ex
    d = envs.DYNS[c['dyn']].make()
    a = ex.create_expert_actor(d, mask_fn(c['mask']))
    f = jax.jit(lambda s: a.select_action(None, s, None, None))
    return a, f, jax.jit(lambda s: ex.infer_expert_action(s, d))
  a, f, inf = envs.cached(('c23x', c['dyn'], c['mask']), make)
  sc, t = c['sc'], c['t']
  s = gens.to_state(sc, t)
  out = f(s)
  out.validate()
  eq(np.asarray(out.is_controlled), mask_np(c['mask'], sc, t), 'control mask')
  require(a.init(None, s) is None and isinstance(a.name, str), 'actor interface')
  tree_eq(out.action, inf(s), 'infer_expert_action ')
  cur = ref.at(ref.f64(sc['sim']), t)
  nxt = ref.at(ref.f64(sc['log']), t + 1)
  both = cur['valid'] & nxt['valid']
  avalid = np.asarray(out.action.valid)[..., 0]
  eq(avalid, nxt['valid'] if c['dyn'] == 'state' else both, 'validity of the expert action')
  up = drive(c['dyn'])(s, out.action)
  d = envs.DYNS[c['dyn']]
  got = {k: np.asarray(getattr(up, k))[..., 0] for k in ref.FIELDS}
  labels = set()
  if c['dyn'] == 'state':
    for k in ref.FIELDS:
      eq(got[k], sc['log'][k][..., t + 1], f'expert {k}')
    return ['state'] if both.any() else []
  if c['dyn'] == 'bicycle':
    # Speed and heading are reached when the needed action is within bounds.
    a_, v_, safe, _ = envs.DYNS['bicycle'].inverse(
        {k: np.stack([cur[k], nxt[k]], -1) for k in sc['sim']}, 0)
    v0, v1 = np.hypot(cur['vel_x'], cur['vel_y']), np.hypot(nxt['vel_x'], nxt['vel_y'])
    sel = both & safe & (np.abs(v1 - v0) / .1 < 5.99) & (np.abs(a_[..., 1]) < .299) & (v0 > .7) & (v1 > .7)
    if sel.any():
      labels.add('bicycle')
      close(np.hypot(got['vel_x'], got['vel_y'])[sel], v1[sel], 'expert speed', 2e-3, 1e-4)
      ang = np.arctan2(nxt['vel_y'], nxt['vel_x'])
      require((ref.angdiff(got['yaw'], ang)[sel] < 2e-3 + 1e-4 * v1[sel]).all(), 'expert heading', got['yaw'], ang)
    return labels
  dx, dy = nxt['x'] - cur['x'], nxt['y'] - cur['y']
  dyaw = ref.wrap(nxt['yaw'] - cur['yaw'])
  # The Euclidean bound keeps the displacement in bounds in any frame.
  sel = both & (np.hypot(dx, dy) < 5.99) & (np.abs(dyaw) < np.pi - 1e-3)
  if sel.any():
    labels.add(c['dyn'])
    tol = 1e-5 * (1 + np.abs(cur['x']) + np.abs(cur['y']) + 10 * np.abs(cur['yaw'])) + 1e-4
    for k in 'xy':
      close(got[k][sel], nxt[k][sel], f'expert {k}', tol[sel])
    require((ref.angdiff(got['yaw'], nxt['yaw'])[sel] < 1e-4).all(), 'expert yaw')
  return labels


@R.law(case(), quick=300, name='constant speed actor')
def constant_speed(c):
  def make():
    import jax
    from waymax.agents import constant_speed as cs
    d = envs.DYNS[c['dyn']].make()
    a = cs.create_constant_speed_actor(d, mask_fn(c['mask']), c['speed'])
    return jax.jit(lambda s: a.select_action(None, s, None, None))
  f = envs.cached(('c23c', c['dyn'], c['mask'], c['speed']), make)
  sc, t = c['sc'], c['t']
  s = gens.to_state(sc, t)
  out = f(s)
  out.validate()
  m = mask_np(c['mask'], sc, t)
  eq(np.asarray(out.is_controlled), m, 'control mask')
  cur = ref.at(ref.f64(sc['sim']), t)
  eq(np.asarray(out.action.valid)[..., 0], m & cur['valid'], 'validity of the action')
  vx, vy = cur['vel_x'], cur['vel_y']
  if c['speed'] is not None:
    vx, vy = c['speed'] * np.cos(cur['yaw']), c['speed'] * np.sin(cur['yaw'])
  up = drive(c['dyn'])(s, out.action)
  got = {k: np.asarray(getattr(up, k))[..., 0] for k in ref.FIELDS}
  sel = m & cur['valid']
  if c['dyn'] == 'bicycle':
    # Heading is kept only if the object moves along it.
    v0, v1 = np.hypot(cur['vel_x'], cur['vel_y']), np.hypot(vx, vy)
    sel &= np.abs(v1 - v0) / .1 < 5.99
    if c['speed'] is None:
      sel &= ref.angdiff(np.arctan2(vy, vx), cur['yaw']) < 1e-5
    sel &= (v0 > 1e-3) | (v1 > 1e-3)
    if sel.any():
      close(np.hypot(got['vel_x'], got['vel_y'])[sel], v1[sel], 'speed', 2e-3, 1e-4)
      # arctan2 of a computed velocity in float32.
      require((ref.angdiff(got['yaw'], cur['yaw'])[sel] < 2e-3).all(), 'heading')
    return ['bicycle'] if sel.any() else []
  if c['dyn'] != 'state':
    sel &= np.hypot(vx, vy) * .1 < 5.99
  tol = 1e-5 * (1 + np.abs(cur['x']) + np.abs(cur['y']) + 10 * np.abs(cur['yaw'])) + 1e-4
  if sel.any():
    close(got['x'][sel], (cur['x'] + vx * .1)[sel], 'x', tol[sel])
    close(got['y'][sel], (cur['y'] + vy * .1)[sel], 'y', tol[sel])
    require((ref.angdiff(got['yaw'], cur['yaw'])[sel] < 1e-4).all(), 'heading')
    vt = tol * 20 + 1e-3
    close(got['vel_x'][sel], vx[sel], 'vel_x', vt[sel], 1e-4)
    close(got['vel_y'][sel], vy[sel], 'vel_y', vt[sel], 1e-4)
  return [c['dyn']] if sel.any() else []


@st.composite
def merge_case(draw):
  nb = draw(st.sampled_from([0, 0, 3]))
  k = draw(st.integers(1, 4))
  shape = ((nb,) if nb else ()) + (N,)
  dim = draw(st.sampled_from([1, 3]))
  src = gens.Src(draw, 300)
  outs = [dict(mask=src.bits(shape, 110), data=src.sym(shape + (dim,), 10.0),
               valid=src.bits(shape + (1,), 170)) for _ in range(k)]
  return dict(outs=outs, shape=shape)


@R.law(merge_case(), quick=250, name='merge_actions')
def merge(c):
  import jax.numpy as jnp
  from waymax import datatypes
  from waymax.agents import actor_core
  outs = [actor_core.WaymaxActorOutput(
      actor_state=i, action=datatypes.Action(data=jnp.asarray(o['data']), valid=jnp.asarray(o['valid'])),
      is_controlled=jnp.asarray(o['mask'])) for i, o in enumerate(c['outs'])]
  got = actor_core.merge_actions(outs)
  data, valid = np.array(c['outs'][0]['data']), np.array(c['outs'][0]['valid'])
  anyone = np.array(c['outs'][0]['mask'])
  for o in c['outs'][1:]:
    data[o['mask']] = o['data'][o['mask']]
    valid[o['mask']] = o['valid'][o['mask']]
    anyone |= o['mask']
  # Only objects that some actor controls have a promised action.
  eq(np.asarray(got.data)[anyone], data[anyone], 'merged data')
  eq(np.asarray(got.valid)[anyone], valid[anyone], 'merged validity')
  require(np.asarray(got.data).shape == data.shape, 'shape')
  try:
    actor_core.merge_actions([])
  except NotImplementedError:
    pass
  else:
    raise Violation('an empty list of actors was merged')
  total = sum(o['mask'].astype(int) for o in c['outs'])
  return ['contested'] if (total > 1).any() else []


@R.law(case(), quick=120, name='sim agents and builder')
def sim_agents(c):
  def make():
    import jax
    from waymax import agents, config as C
    from waymax.agents import agent_builder, constant_speed
    m = mask_fn(c['mask'])
    T_ = C.ObjectType
    mk = lambda o: agent_builder.create_sim_agents_from_config(
        C.SimAgentConfig(agent_type=C.SimAgentType.IDM, controlled_objects=o))
    return jax.jit(lambda s: [a.select_action({}, s, None, None) for a in (
        agents.FrozenSimPolicy(m), agents.IDMRoutePolicy(m), agents.FrozenSimPolicy(),
        constant_speed.ConstantSpeedPolicy(4.0), mk(T_.SDC), mk(T_.NON_SDC),
        agents.IDMRoutePolicy())])
  outs = envs.cached(('c23s', c['mask']), make)(gens.to_state(c['sc'], c['t']))
  sc, t = c['sc'], c['t']
  m, sdc = mask_np(c['mask'], sc, t), sc['md']['is_sdc']
  for i, exp in enumerate((m, m, ~sdc, ~sdc, sdc, ~sdc, ~sdc)):
    outs[i].validate()
    eq(np.asarray(outs[i].is_controlled), exp, f'control mask of agent {i}')
    require(np.asarray(outs[i].action.data).shape == m.shape + (5,), 'action shape')
    require(outs[i].actor_state is None, 'actor state')
  for i in (0, 2):
    data = np.asarray(outs[i].action.data)
    for n, k in enumerate(ref.FIELDS):
      eq(data[..., n], sc['sim'][k][..., t], f'frozen {k}')
    eq(np.asarray(outs[i].action.valid)[..., 0], sc['sim']['valid'][..., t], 'frozen valid')
  # The configured agent is the intelligent driver model with default settings.
  close(outs[5].action.data, outs[6].action.data, 'configured IDM', 1e-4)
  return ['masks'] if m.any() and not m.all() else ['uniform']


@R.law(st.fixed_dictionaries(dict(obj=st.sampled_from(['SDC', 'NON_SDC', 'MODELED', 'VALID']),
                                  agent=st.sampled_from(['IDM', 'other']))), quick=30,
       name='builder rejects unsupported configurations')
def builder(c):
  from waymax import agents, config as C
  from waymax.agents import agent_builder
  cfg = C.SimAgentConfig(agent_type=C.SimAgentType.IDM if c['agent'] == 'IDM' else 'OTHER',
                         controlled_objects=C.ObjectType[c['obj']])
  good = c['agent'] == 'IDM' and c['obj'] in ('SDC', 'NON_SDC')
  try:
    a = agent_builder.create_sim_agents_from_config(cfg)
  except NotImplementedError:
    require(not good, 'supported configuration rejected', c)
    return ['rejected']
  require(good and isinstance(a, agents.IDMRoutePolicy), 'unsupported configuration accepted', c)
  return ['built']


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=2, drift=draw(st.sampled_from([0.0, .3, 2.0]))))
  return dict(sc=sc, b=0, t=sc['timestep'], dyn=draw(st.sampled_from(DYN)), mask=draw(st.sampled_from(
      ['sdc', 'all', 'modeled', 'valid', 'other'])), speed=draw(st.sampled_from([None, 0.0, 15.0])))


@R.law(full_case(), quick=20, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  return set(expert(c)) | set(constant_speed(c))


def make_own():
  """Actions of actors in states that are each at their own timestep."""
  from waymax import agents as A
  acts = dict(speed=A.create_constant_speed_actor(envs.DYNS['state'].make(), lambda s: s.object_metadata.is_sdc, speed=3.0),
              current=A.create_constant_speed_actor(envs.DYNS['state'].make(), lambda s: s.object_metadata.is_sdc))
  for k in ('bicycle', 'delta_local', 'delta_global', 'state'):
    acts['expert_' + k] = A.create_expert_actor(envs.DYNS[k].make())

  def f(s, _):
    out = {}
    for k, a in acts.items():
      o = a.select_action({}, s, None, None)
      out[k] = dict(data=o.action.data * o.action.valid, valid=o.action.valid, on=o.is_controlled)
    return out
  return f


batching.own_timesteps(R, make_own)
