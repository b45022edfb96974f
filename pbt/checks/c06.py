"""C06: inverse dynamics recover the action that reproduces a trajectory."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from harness import Registry, eq, close, require, Violation
from checks import c05

R = Registry('C06', 'Random states, in-bounds actions and trajectories; oracles: '
             'forward/inverse round trips in both directions, float64 inverse '
             'reference, whole-log replay under expert actions; non-trivial: a '
             'valid transition exists.')


def metadata(N, batch=None):
  import jax.numpy as jnp
  from waymax import datatypes
  shape = (N,) if batch is None else (batch, N)
  f = jnp.zeros(shape, bool)
  return datatypes.ObjectMetadata(
      ids=jnp.zeros(shape, jnp.int32), object_types=jnp.ones(shape, jnp.int32),
      is_sdc=f.at[..., 0].set(True), is_modeled=f, is_valid=~f,
      objects_of_interest=f, is_controlled=f)


def inv(key):
  import jax
  d = c05.model(key)
  m = envs.cached(('c05m', key), d.make)
  return envs.cached(('c06i', key), lambda: jax.jit(
      lambda tr, md, t: m.inverse(tr, md, t)))


def pad_traj(rng_traj, t, cur, nxt):
  """Writes cur/nxt at t/t+1 of a trajectory dict."""
  for k in ref.FIELDS:
    rng_traj[k][..., t] = cur[k]
    rng_traj[k][..., t + 1] = nxt[k]
  return rng_traj


@st.composite
def fi(draw, batch=None):
  shape = (4,) if not batch else (batch, 4)
  c = draw(c05.case(shapes=(shape,)))
  d = c05.model(tuple(c['key']))
  src = gens.Src(draw, 8 * 4 * (batch or 1))
  T = 4
  tr = [gens.trajectory(draw, 4, T) for _ in range(batch or 1)]
  tr = {k: np.stack([x[k] for x in tr]) for k in tr[0]} if batch else tr[0]
  if c['key'][0] == 'bicycle':
    c['act']['data'] = np.clip(c['act']['data'], -d.spec, d.spec).astype(np.float32)
  return dict(c, tr=tr, t=draw(st.integers(0, T - 2)))


@R.law(fi(), quick=700, rule='act -> forward -> inverse gives the action back')
def forward_then_inverse(c):
  key = tuple(c['key'])
  d = c05.model(key)
  _, f = c05.upd(key)
  upd = f(envs.to_action(c['act']), c05.traj1(c['cur']))
  nxt = {k: np.asarray(getattr(upd, k))[..., 0] for k in ref.FIELDS}
  tr = {k: v.copy() for k, v in c['tr'].items()}
  t = c['t']
  pad_traj(tr, t, c['cur'], nxt)
  tr['valid'][..., t] = c['cur']['valid']
  out = inv(key)(gens.to_traj(tr), metadata(4), t)
  a = np.asarray(out.data)
  sel = tr['valid'][..., t] & tr['valid'][..., t + 1]
  want = np.asarray(c['act']['data'], np.float64)
  if key[0] == 'bicycle':
    v0 = np.hypot(c['cur']['vel_x'], c['cur']['vel_y']).astype(np.float64)
    k_acc = want[..., 0] * (d.bound[0] if d.norm else 1)
    v1 = v0 + k_acc * d.dt
    turn = np.abs(want[..., 1]) * (d.bound[1] if d.norm else 1) * .5 * (v0 + v1) * d.dt
    # A turn of more than half a circle in one step is not recoverable.
    sel = sel & (v0 > .61) & (v1 > .61) & (turn < np.pi - 1e-2)
    tol = np.stack([1e-6 * (1 + v0 + np.abs(v1)) / d.dt + 1e-5,
                    4e-5 / np.maximum(.5 * (v0 + np.abs(v1)) * d.dt, 1e-3)], -1)
    if d.norm:
      tol = tol / d.bound
  elif key[0] == 'state':
    tol = np.zeros(want.shape)
    sel = tr['valid'][..., t + 1]
  else:
    big = np.abs(c['cur']['x']) + np.abs(c['cur']['y'])
    tol = np.stack([4e-7 * (1 + big) * 3 + 2e-5] * 2 + [1e-5 + 0 * big], -1)
    if key[0] == 'delta_local':
      # The inverse passes through clipped global deltas: stay inside them.
      gdx, gdy = nxt['x'] - c['cur']['x'], nxt['y'] - c['cur']['y']
      sel = sel & (np.abs(gdx) < d.spec[0] - 1e-2) & (np.abs(gdy) < d.spec[1] - 1e-2)
    sel = sel & (np.abs(np.abs(want[..., 2]) - np.pi) > 1e-3)
  close(a[sel], want[sel], f'{key[0]}: inverse(forward(action))', atol=tol[sel])
  return [key[0]] if sel.any() else []


@st.composite
def tr_case(draw, batch=None):
  T = 5
  key = draw(st.sampled_from(c05.KEYS))
  trs = [gens.trajectory(draw, 4, T) for _ in range(batch or 1)]
  tr = {k: np.stack([x[k] for x in trs]) for k in trs[0]} if batch else trs[0]
  if draw(st.booleans()):  # slow objects, around the 0.6 m/s limit
    f = np.float32(draw(st.sampled_from([0.1, 0.05, 0.0])))
    tr['vel_x'] = tr['vel_x'] * f
    tr['vel_y'] = tr['vel_y'] * f
  if draw(st.booleans()):  # small displacements: inside the bounds
    for k in ('x', 'y'):
      tr[k] = (tr[k][..., :1] + (tr[k] - tr[k][..., :1]) * np.float32(.1)).astype(np.float32)
  return dict(key=key, tr=tr, t=draw(st.integers(0, T - 2)), batch=batch)


def check_inverse(c):
  key = tuple(c['key'])
  d = c05.model(key)
  out = inv(key)(gens.to_traj(c['tr']), metadata(4, c['batch']), c['t'])
  a, valid, safe, tol = d.inverse(c['tr'], c['t'])
  eq(np.asarray(out.valid)[..., 0], valid, f'{key[0]}: validity of the inverse')
  g = np.asarray(out.data)
  require(g.shape == a.shape, f'{key[0]}: inverse shape {g.shape}')
  close(g[safe], a[safe], f'{key[0]}: inverse action', atol=tol[safe])
  require(not np.isnan(g).any(), f'{key[0]}: NaN inverse action')
  lim = d.spec
  require((np.abs(g) <= lim * (1 + 1e-6) + 1e-6).all(),
          f'{key[0]}: inverse outside the declared bounds: {g} vs {lim}')
  if key[0] != 'state':
    require((g[~valid] == 0).all(), f'{key[0]}: invalid inverse action not zero')
  return [key[0]] if (valid & safe).any() else []


@R.law(tr_case(), quick=800, rule='inverse of arbitrary transitions')
def inverse_reference(c):
  return check_inverse(c)


@R.law(tr_case(batch=2), quick=100, rule='batched inverse')
def inverse_reference_batched(c):
  return check_inverse(c)


@R.law(tr_case(), quick=300, rule='inverse -> forward reproduces the logged pose '
       'when the transition is reachable (delta and state models)')
def inverse_then_forward(c):
  key = tuple(c['key'])
  d = c05.model(key)
  if d.kind == 'bicycle':
    return []
  act = inv(key)(gens.to_traj(c['tr']), metadata(4), c['t'])
  _, f = c05.upd(key)
  cur = ref.at(c['tr'], c['t'])
  nxt = ref.at(c['tr'], c['t'] + 1)
  upd = f(act, c05.traj1(cur))
  sel = np.asarray(act.valid)[..., 0]
  if d.kind != 'state':
    sel = sel & (np.abs(nxt['x'] - cur['x']) < d.spec[0]) & (
        np.abs(nxt['y'] - cur['y']) < d.spec[1]) & (
            ref.angdiff(nxt['yaw'], cur['yaw']) < d.spec[2])
    if d.kind == 'delta_local':
      sel = sel & (np.hypot(nxt['x'] - cur['x'], nxt['y'] - cur['y']) < min(d.spec[:2]))
  big = 1e-6 * (10 + np.abs(cur['x']) + np.abs(cur['y'])) + 1e-5
  close(np.asarray(upd.x)[sel, 0], nxt['x'][sel], 'x reproduced', atol=2 * big[sel])
  close(np.asarray(upd.y)[sel, 0], nxt['y'][sel], 'y reproduced', atol=2 * big[sel])
  require((ref.angdiff(np.asarray(upd.yaw)[sel, 0], nxt['yaw'][sel]) < 2e-5).all(),
          'yaw reproduced')
  if d.kind == 'state':
    eq(np.asarray(upd.vel_x)[sel, 0], nxt['vel_x'][sel], 'vel_x reproduced')
    eq(np.asarray(upd.vel_y)[sel, 0], nxt['vel_y'][sel], 'vel_y reproduced')
  return [key[0]] if sel.any() else []


@st.composite
def log_case(draw):
  T = 6
  dyn = draw(st.sampled_from(['bicycle', 'delta_global', 'delta_local', 'state']))
  sc = draw(gens.scenario(N=3, T=T, P=2, L=1))
  init = draw(st.sampled_from([1, 2]))
  src = gens.Src(draw, 2 * 3 * T * 2 + 32)
  log = sc['log']
  log['valid'][:] = True
  if dyn == 'bicycle':  # a log that the bicycle can follow exactly
    d = ref.Dyn('bicycle')
    cur = ref.at(log, 0)
    sp = src.unit((3,), 4, 15)
    cur['vel_x'], cur['vel_y'] = sp * np.cos(cur['yaw']), sp * np.sin(cur['yaw'])
    cur['yaw'] = ref.wrap(cur['yaw'])
    for t in range(T):
      for k in ref.FIELDS:
        log[k][:, t] = np.float32(cur[k])
      a = np.stack([src.sym((3,), 5.5), src.sym((3,), 0.28)], -1)
      cur = d.update(cur, a)
  elif dyn != 'state':  # reachable displacements
    for k in ('x', 'y'):
      step = src.sym((3, T), 4.0)
      log[k] = (log[k][:, :1] + np.cumsum(step, 1) - step[:, :1]).astype(np.float32)
  else:
    log['valid'] = gens.validity(draw, gens.Src(draw, 3 * T + 6), 3, T)
  sc['sim'] = {k: v.copy() for k, v in log.items()}
  return dict(sc=sc, dyn=dyn, init=init)


@R.law(log_case(), quick=150, rule='every object driven by expert actions over '
       'the whole log')
def expert_replays_log(c):
  import jax
  from waymax import agents
  sc, dyn, init = c['sc'], c['dyn'], c['init']
  N, T = sc['log']['x'].shape
  env = envs.env(dyn, 'VALID', False, init, N)
  expert = envs.cached(('c06e', dyn), lambda: agents.create_expert_actor(
      dynamics_model=envs.DYNS[dyn].make()))

  def one(state):
    out = expert.select_action({}, state, None, None)
    return env.step(state, out.action), out.action
  f = envs.cached(('c06ef', dyn, init), lambda: jax.jit(one))
  state = env.reset(gens.to_state(sc))
  for i in range(T - init):
    state, act = f(state)
  out = gens.traj_np(state.sim_trajectory)
  ok = sc['log']['valid'][:, init - 1:].all(1)
  tol = dict(bicycle=2e-3, state=0.0).get(dyn, 2e-4)
  for k in ('x', 'y'):
    close(out[k][ok], sc['log'][k][ok], f'{dyn}: expert replay {k}', atol=tol, rtol=0)
  require((ref.angdiff(out['yaw'][ok], sc['log']['yaw'][ok]) <= max(tol, 1e-5)).all(),
          f'{dyn}: expert replay yaw')
  if dyn in ('bicycle', 'state'):
    for k in ('vel_x', 'vel_y'):
      close(out[k][ok], sc['log'][k][ok], f'{dyn}: expert replay {k}', atol=10 * tol, rtol=0)
  return [dyn] if ok.any() else []


@R.law(tr_case(), quick=200, rule='bicycle compute_inverse with recorded headings')
def compute_inverse_recorded_yaw(c):
  from waymax.dynamics import bicycle_model
  import jax
  dt = 0.1
  f = envs.cached(('c06ci',), lambda: jax.jit(
      lambda tr, t: bicycle_model.compute_inverse(
          tr, t, dt=dt, estimate_yaw_with_velocity=False)))
  out = f(gens.to_traj(c['tr']), c['t'])
  tr = ref.f64(c['tr'])
  a, b = ref.at(tr, c['t']), ref.at(tr, c['t'] + 1)
  v0, v1 = np.hypot(a['vel_x'], a['vel_y']), np.hypot(b['vel_x'], b['vel_y'])
  valid = a['valid'] & b['valid']
  slow = (v0 < .6) | (v1 < .6)
  delta = ref.wrap(b['yaw'] - a['yaw'])
  den = np.where(slow, 1, .05 * (v0 + v1))
  st_ = np.where(slow, 0, delta / den)
  safe = valid & (np.abs(v0 - .6) > 1e-4) & (np.abs(v1 - .6) > 1e-4) & (
      np.abs(np.abs(delta) - np.pi) > 1e-4)
  g = np.asarray(out.data)
  eq(np.asarray(out.valid)[:, 0], valid, 'validity')
  close(g[safe, 0], ((v1 - v0) / dt)[safe], 'acceleration', atol=5e-4)
  close(g[safe, 1], st_[safe], 'steering', atol=(2e-5 / den + 1e-5 * np.abs(st_))[safe])
  require((g[~valid] == 0).all(), 'invalid not zero')
  return ['ok'] if safe.any() else []
