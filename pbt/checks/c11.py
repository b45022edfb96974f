"""C11: observations are the true recent state, seen from the requested frame."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from checks import c10, c12
from harness import Registry, close, eq, require, Violation

R = Registry('C11', 'Random scenarios (free simulated trajectories different '
             'from the log, partial validity, any SDC index, any timestep) '
             'observed in every frame, with 1 or 3 history steps, with and '
             'without map selection, single and batched; oracle: slices of the '
             'state moved by float64 rigid motions. Non-trivial: the frame is '
             'not global and some other object is visible.')
N, T, P, L = 3, 5, 8, 2
OPTS = [(1, 3), (3, 8), (3, 3)]
FRAMES = ('GLOBAL', 'SDC', 'OBJECT')


@st.composite
def case(draw):
  nb = draw(st.sampled_from([0, 0, 2]))
  scs = []
  for _ in range(nb or 1):
    sc = draw(gens.scenario(N=N, T=T, P=P, L=L, K=2, M=3, sim='free'))
    sc['rg']['ids'] = np.asarray(7 * np.arange(P) + 3, np.int32)
    scs.append(sc)
  sc = gens.stack_cases(scs) if nb else scs[0]
  if not nb:
    sc = envs.shift_world(draw, sc)
  steps, k = draw(st.sampled_from(OPTS))
  t = draw(st.integers(steps - 1, T - 1) if draw(st.integers(0, 3)) else st.integers(0, T - 1))
  sc['timestep'] = t
  if draw(st.integers(0, 4)) == 0:
    sc['paths'] = None
  return dict(sc=sc, steps=steps, k=k, frame=draw(st.sampled_from(FRAMES)),
              sdc=draw(st.booleans()), b=nb, noise=draw(st.integers(0, 9)))


def fn(steps, k, frame, sdc, haspaths):
  def make():
    import jax
    from waymax import config
    from waymax import datatypes
    f = datatypes.sdc_observation_from_state if sdc else datatypes.observation_from_state
    return jax.jit(lambda s: f(s, obs_num_steps=steps, roadgraph_top_k=k,
                               coordinate_frame=config.CoordinateFrame[frame]))
  return envs.cached(('c11', steps, k, frame, sdc, haspaths), make)


def one(sc, obs, c, i):
  """Checks one scenario of the (possibly batched) observation."""
  t, steps, k, frame, sdc = (c[z] for z in ('steps',)) if 0 else (
      int(sc['timestep']), c['steps'], c['k'], c['frame'], c['sdc'])
  sim, md = sc['sim'], sc['md']
  N, P = len(sim['x']), len(sc['rg']['x'])
  observers = [int(np.argmax(md['is_sdc']))] if sdc else list(range(N))
  lab = []
  w = slice(max(0, t - steps + 1), t + 1)
  h = min(steps, t + 1)  # steps before the start of the episode are not there
  for o, who in enumerate(observers):
    def g(x):
      return np.asarray(x)[i][o] if c['b'] else np.asarray(x)[o]
    origin = {'GLOBAL': None, 'SDC': int(np.argmax(md['is_sdc'])), 'OBJECT': who}[frame]
    if origin is None:
      px, py, pyaw, pv = 0.0, 0.0, 0.0, True
    else:
      px, py, pyaw, pv = (sim[f][origin, t] for f in ('x', 'y', 'yaw', 'valid'))
    name = f'{frame} observer {who}'
    xy, yaw = g(obs.pose2d.original_xy), g(obs.pose2d.original_yaw)
    eq(xy, np.float32([px, py]), name + ' pose xy')
    eq(yaw, np.float32(pyaw), name + ' pose yaw')
    eq(g(obs.pose2d.valid), np.bool_(pv), name + ' pose valid')
    eq(g(obs.valid), np.bool_(pv), name + ' valid')
    m = g(obs.pose2d.matrix).astype(float)
    tl_ = c10.tol(sim['x'], sim['y'], sc['rg']['x'], sc['tl']['x'])
    ox, oy = c10.into(px, py, pyaw, sim['x'][:, w], sim['y'][:, w])
    tr = {f: g(getattr(obs.trajectory, f)) for f in envs.TRAJ_FIELDS}
    lights = {f: g(getattr(obs.traffic_lights, f)) for f in ('x', 'y', 'z', 'state', 'lane_ids', 'valid')}
    for d, what in ((tr, ' trajectory'), (lights, ' lights')):
      for f in d:
        require(d[f].shape[-1] == steps, name, what, f, 'observed steps', d[f].shape)
      require(not d['valid'][:, :steps - h].any(), name, what, 'valid before the start')
      d.update({f: v[:, steps - h:] for f, v in d.items()})
    if frame == 'GLOBAL':
      for f in envs.TRAJ_FIELDS:
        eq(tr[f], sim[f][:, w], f'{name} trajectory {f}')
    else:
      close(tr['x'], ox, name + ' x', tl_)
      close(tr['y'], oy, name + ' y', tl_)
      vx, vy = c10.into(0, 0, pyaw, sim['vel_x'][:, w], sim['vel_y'][:, w])
      close(tr['vel_x'], vx, name + ' vel_x', 3e-4)
      close(tr['vel_y'], vy, name + ' vel_y', 3e-4)
      close(ref.angdiff(tr['yaw'], sim['yaw'][:, w] - np.float64(pyaw)),
            np.zeros(ox.shape), name + ' yaw', 2e-5)
      for f in ('z', 'length', 'width', 'height', 'timestamp_micros'):
        eq(tr[f], sim[f][:, w], f'{name} trajectory {f}')
      eq(tr['valid'], sim['valid'][:, w] & pv, name + ' trajectory valid')
      # Transforming back with the inverse pose gives the global values.
      inv = np.linalg.inv(m)
      back = np.stack([tr['x'], tr['y'], np.ones(tr['x'].shape)], -1).astype(float) @ inv.T
      close(back[..., 0], sim['x'][:, w], name + ' x transformed back', 4 * tl_)
      close(back[..., 1], sim['y'][:, w], name + ' y transformed back', 4 * tl_)
      if pv and sim['valid'][:, w].sum() > steps:
        lab.append(frame)
    eq(g(obs.is_ego), np.arange(N) == who, name + ' is_ego')
    for f in md:
      eq(g(getattr(obs.metadata, f)), md[f], f'{name} metadata {f}')
    lx, ly = c10.into(px, py, pyaw, sc['tl']['x'][:, w], sc['tl']['y'][:, w])
    close(lights['x'], lx, name + ' light x', tl_)
    close(lights['y'], ly, name + ' light y', tl_)
    for f in ('z', 'state', 'lane_ids'):
      eq(lights[f], sc['tl'][f][:, w], f'{name} light {f}')
    eq(lights['valid'], sc['tl']['valid'][:, w] & pv, name + ' light valid')
    # Map: the observed points, matched by their unique id.
    rg = {f: g(getattr(obs.roadgraph_static_points, f)) for f in c12.RG}
    require(len(rg['x']) == k, name, 'roadgraph size', len(rg['x']))
    sel = rg['valid']
    if not pv:
      require(not sel.any(), name, 'valid map points for an invalid pose')
      continue
    idx = (rg['ids'].astype(int) - 3) // 7
    require((rg['ids'][sel] % 7 == 3).all() and (idx[sel] >= 0).all() and
            (idx[sel] < P).all(), name, 'unknown map ids', rg['ids'])
    idx = np.clip(idx, 0, P - 1)
    full = {f: np.asarray(sc['rg'][f]) for f in c12.RG}
    glob = {f: np.where(sel, full[f][idx], rg[f]) for f in c12.RG}
    pt = np.asarray([sim['x'][who, t], sim['y'][who, t]], float)
    if k < P:
      c12.check_selection(glob, full, pt, k, name)
    else:
      eq(rg['ids'], full['ids'], name + ' map order')
    eq(rg['valid'], np.where(sel, full['valid'][idx], rg['valid']), name + ' map valid')
    ex, ey = c10.into(px, py, pyaw, full['x'][idx], full['y'][idx])
    close(rg['x'][sel], ex[sel], name + ' map x', tl_)
    close(rg['y'][sel], ey[sel], name + ' map y', tl_)
    dx, dy = c10.into(0, 0, pyaw, full['dir_x'][idx], full['dir_y'][idx])
    close(rg['dir_x'][sel], dx[sel], name + ' map dir_x', 1e-5)
    close(rg['dir_y'][sel], dy[sel], name + ' map dir_y', 1e-5)
    for f in ('z', 'dir_z', 'types', 'ids'):
      eq(rg[f][sel], full[f][idx][sel], f'{name} map {f}')
    if sdc and sc['paths'] is not None:
      for f in ('ids', 'valid', 'arc_length', 'on_route', 'z'):
        eq(g(getattr(obs.sdc_paths, f)), sc['paths'][f], f'sdc_paths {f}')
      if frame == 'GLOBAL':
        for f in ('x', 'y'):
          eq(g(getattr(obs.sdc_paths, f)), sc['paths'][f], f'sdc_paths {f}')
  return lab


def sub(sc, i):
  return {k: (None if v is None else {f: a[i] for f, a in v.items()} if isinstance(v, dict)
              else v) for k, v in sc.items()}


@R.law(case(), quick=300)
def observation(c):
  sc = c['sc']
  state = gens.to_state(sc)
  f = fn(c['steps'], c['k'], c['frame'], c['sdc'], sc['paths'] is not None)
  obs = f(state)
  obs.validate()
  n_obs = 1 if c['sdc'] else sc['sim']['x'].shape[-2]
  require(obs.shape == ((c['b'],) if c['b'] else ()) + (n_obs,), 'shape', obs.shape)
  lab = []
  for i in range(c['b'] or 1):
    lab += one(sub(sc, i) if c['b'] else sc, obs, c, i)
  # Nothing after the current timestep is observable.
  t = int(sc['timestep'])
  sc2 = {k: ({f_: v.copy() for f_, v in d.items()} if isinstance(d, dict) else d)
         for k, d in sc.items()}
  for part in ('sim', 'log', 'tl'):
    for k2, v in sc2[part].items():
      v[..., t + 1:] = np.flip(v[..., t + 1:], 0) if v.dtype == bool else v[..., t + 1:] + 5 + c['noise']
      if v.dtype == bool:
        v[..., t + 1:] = ~v[..., t + 1:]
  obs2 = f(gens.to_state(sc2))
  from harness import tree_eq
  tree_eq(obs2, obs, 'observation depends on the future')
  if not c['b'] and c['noise'] < 5:
    for o in range(n_obs):
      import jax
      from waymax.datatypes import observation as ob
      v = obs.for_obj(o)
      require(v.shape == (1,), 'for_obj shape', v.shape)
      tree_eq(v, jax.tree_util.tree_map(lambda a: a[o:o + 1], obs), f'for_obj({o})')
  return sorted(set(lab))


@R.law(case(), quick=60, name='transform_observation',
       rule='moving a whole observation to another pose; non-trivial: valid pose')
def move(c):
  """Re-expressing an observation in the poses of another frame equals
  observing in that frame."""
  sc = c['sc']
  state = gens.to_state(sc)
  hp = sc['paths'] is not None
  src = fn(c['steps'], c['k'], c['frame'], False, hp)(state)
  dst_frame = FRAMES[(FRAMES.index(c['frame']) + 1 + c['noise'] % 2) % 3]
  dst = fn(c['steps'], c['k'], dst_frame, False, hp)(state)
  def make():
    import jax
    from waymax.datatypes import observation as ob
    return jax.jit(ob.transform_observation)
  got = envs.cached('c11move', make)(src, dst.pose2d)
  t = 12 * c10.tol(sc['sim']['x'], sc['sim']['y'], sc['rg']['x'], sc['tl']['x'])
  pv = np.asarray(src.pose2d.valid) & np.asarray(dst.pose2d.valid)
  for f in ('x', 'y', 'vel_x', 'vel_y'):
    close(getattr(got.trajectory, f), getattr(dst.trajectory, f), f'moved {f}', t)
  close(ref.angdiff(got.trajectory.yaw, dst.trajectory.yaw),
        np.zeros(got.trajectory.yaw.shape), 'moved yaw', 3e-5)
  eq(np.asarray(got.trajectory.valid), np.asarray(dst.trajectory.valid) & pv[..., None, None], 'moved valid')
  for f in ('x', 'y', 'dir_x', 'dir_y'):
    close(getattr(got.roadgraph_static_points, f), getattr(dst.roadgraph_static_points, f), 'moved map ' + f, t)
  eq(np.asarray(got.roadgraph_static_points.valid),
     np.asarray(dst.roadgraph_static_points.valid) & pv[..., None], 'moved map valid')
  for f in ('x', 'y'):
    close(getattr(got.traffic_lights, f), getattr(dst.traffic_lights, f), 'moved light ' + f, t)
  from harness import tree_eq
  tree_eq(got.pose2d, dst.pose2d, 'moved pose')
  eq(np.asarray(got.is_ego), np.asarray(dst.is_ego), 'is_ego')
  return ['moved'] if pv.any() else []


@R.law(st.fixed_dictionaries(dict(c=case(), extra=st.integers(0, 9), seed=st.integers(0, 2**31))), quick=12,
       name='default options', rule='the documented defaults: one step, 1000 map points, GLOBAL (all objects) or SDC frame')
def defaults(d):
  from waymax import config, datatypes
  sc = dict(d['c']['sc'] if not d['c']['b'] else sub(d['c']['sc'], 0))
  r = np.random.RandomState(d['seed'])
  rep = -(-(1000 + d['extra']) // P)
  sc['rg'] = {f: np.tile(v, rep)[:1000 + d['extra']] for f, v in sc['rg'].items()}
  sc['rg']['ids'] = np.arange(1000 + d['extra'], dtype=np.int32)
  for f in 'xy':
    sc['rg'][f] = (sc['rg'][f] + r.uniform(-40, 40, sc['rg'][f].shape)).astype(np.float32)
  s = gens.to_state(sc)
  from harness import tree_eq
  kw = dict(obs_num_steps=1, roadgraph_top_k=1000)
  tree_eq(datatypes.observation_from_state(s), datatypes.observation_from_state(
      s, coordinate_frame=config.CoordinateFrame.GLOBAL, **kw), 'observation with defaults: ')
  tree_eq(datatypes.sdc_observation_from_state(s), datatypes.sdc_observation_from_state(
      s, coordinate_frame=config.CoordinateFrame.SDC, **kw), 'SDC observation with defaults: ')
  return ['defaults']


@R.law(case(), quick=20, name='environment observation',
       rule='the default environment observation is the state itself')
def env_observe(c):
  state = gens.to_state(c['sc'])
  out = envs.env('delta_global', 'SDC', True, 2, N).observe(state)
  from harness import tree_eq
  tree_eq(out, state, 'observe')
  require(out.shape == state.shape, 'shape')
  return ['identity']


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=1200))
  sc['rg']['ids'] = np.asarray(7 * np.arange(1200) + 3, np.int32)
  steps, k = draw(st.sampled_from([(10, 500), (91, 1200)]))
  return dict(sc=sc, steps=steps, k=k, frame=draw(st.sampled_from(FRAMES)), sdc=draw(st.integers(0, 2)) > 0, b=0,
              noise=draw(st.integers(0, 9)))


@R.law(full_case(), quick=25, name='full-size scenes', rule='128 objects, 1200 map points, up to 91 steps')
def full_size(c):
  return observation(c)


def make_own():
  """Observations of states that are each at their own timestep."""
  from waymax import config as C, datatypes

  def f(s, _):
    return {'h3': datatypes.observation_from_state(s, 3, batching.P - 2),
            'sdc': datatypes.sdc_observation_from_state(s, 2, batching.P),
            'global': datatypes.sdc_observation_from_state(s, 3, batching.P - 1, coordinate_frame=C.CoordinateFrame.GLOBAL)}
  return f


batching.own_timesteps(R, make_own)
