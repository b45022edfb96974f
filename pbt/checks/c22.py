"""C22: reactive agents follow their logged route at the prescribed speed."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from checks import c09
from harness import Registry, Violation, close, eq, require

R = Registry('C22', 'Random routes, validity patterns, current poses and speeds; '
             'oracles: float64 route projection, the intelligent-driver formula '
             'with the nearest overlapped object on ten points ahead, and '
             'straight-line kinematics over episodes. Non-trivial: a moving '
             'object with a usable route, or a lead object is found.',
             ['objects whose nearest waypoint, contact with another box or end '
              'of route is within float32 error of a tie are not judged',
              'with lookahead along the log, only objects further than the '
              'lookahead from the end of the log are judged'])
N, T = 4, 8
DT = 0.1


# ------------------------------------------------------------- projection ----
def route_policy(end):
  """Policy whose speeds and validity come from the metadata-free side channel."""
  def make():
    import jax
    from waymax.agents import waypoint_following_agent as w

    class Table(w.WaypointFollowingPolicy):
      def update_speed(self, state, dt=0.1):
        return self.table

    def f(state, speed, ok):
      p = Table(invalidate_on_end=end)
      p.table = (speed, ok)
      return p.update_trajectory(state)
    return jax.jit(f)
  return envs.cached(('c22p', end), make)


@st.composite
def route_case(draw):
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
  t = draw(st.integers(0, T - 1))
  src = gens.Src(draw, 160)
  for i in range(N):
    how = src.u8(1)[0] % 4
    j = int(src.u8(1)[0] % T)
    if how < 3:  # at or near one of its own logged waypoints
      jit = src.sym((3,), [0.0, 0.5, 6.0][how])
      for n, k in enumerate(('x', 'y')):
        sc['sim'][k][i, t] = sc['log'][k][i, j] + jit[n]
      sc['sim']['yaw'][i, t] = sc['log']['yaw'][i, j] + jit[2] * .1
    if src.u8(1)[0] % 3:
      sc['sim']['valid'][i, t] = True
  speed = np.abs(src.sym((N,), 20.0))
  speed[src.u8(N) % 4 == 1] = .9
  speed[src.u8(N) % 5 == 1] = 0
  sc['timestep'] = t
  return dict(sc=sc, t=t, speed=speed.astype(np.float32), ok=src.bits((N,), 220),
              end=draw(st.booleans()))


def project_model(log, cur, speed, ok, end):
  """float64 model of one object; returns (dict, decided, labels)."""
  v0 = np.hypot(cur['vel_x'], cur['vel_y'])
  v1 = speed if ok else v0
  d = (v0 + v1) / 2 * DT
  p = np.array([cur['x'] + d * np.cos(cur['yaw']), cur['y'] + d * np.sin(cur['yaw'])])
  pts = np.stack([log['x'], log['y']], -1)
  dist = np.where(log['valid'], np.hypot(*(pts - p).T), np.inf)
  i = int(np.argmin(dist))
  scale = 1e-5 * (1 + np.abs(p).max()) + 1e-4
  tie = (dist < dist[i] + scale) & (np.arange(len(dist)) != i)
  # Equal waypoints with equal headings are no tie.
  same = (np.abs(pts - pts[i]).max(-1) == 0) & (log['yaw'] == log['yaw'][i])
  decided = not (tie & ~same).any()
  last = int(np.nonzero(log['valid'])[0][-1])
  dl = np.hypot(*(pts[last] - pts[i]))
  decided &= abs(dl - .05) > 1e-3 and abs(dist[i] - 5.0) > 1e-2
  reached = dl < .05 or dist[i] > 5.0
  u = np.array([np.cos(log['yaw'][i]), np.sin(log['yaw'][i])])
  if end and reached:
    q = pts[i]
  else:
    q = pts[i] + u * np.dot(u, p - pts[i])
  if reached:
    vel = (0.0, 0.0) if end else (cur['vel_x'], cur['vel_y'])
  else:
    vel = (v1 * np.cos(cur['yaw']), v1 * np.sin(cur['yaw']))
  valid = bool(cur['valid'] and ok)
  if end and reached:
    decided &= abs(v1 - 1.0) > 1e-4
    valid = valid and not v1 > 1.0
  lab = ('end' if reached else 'follow') + ('' if valid else ':invalid')
  return dict(x=q[0], y=q[1], yaw=log['yaw'][i], vel_x=vel[0], vel_y=vel[1]), valid, decided, lab


@R.law(route_case(), quick=450, name='route projection')
def projection(c):
  sc, t = c['sc'], c['t']
  out = route_policy(c['end'])(gens.to_state(sc, t), c['speed'], c['ok'])
  labels = set()
  got = {k: np.asarray(getattr(out, k)) for k in ref.FIELDS + ('valid',)}
  n_obj = len(sc['sim']['x'])
  for k in got:
    require(got[k].shape == (n_obj, 1), 'shape', k, got[k].shape)
  for i in range(n_obj):
    cur = {k: v[i] for k, v in ref.at(ref.f64(sc['sim']), t).items()}
    log = {k: v[i] for k, v in ref.f64(sc['log']).items()}
    if not log['valid'].any():
      continue
    want, valid, decided, lab = project_model(log, cur, float(c['speed'][i]), bool(c['ok'][i]), c['end'])
    if not cur['valid']:
      require(not got['valid'][i, 0], 'an invalid object became valid', i)
      continue
    if not decided:
      continue
    require(bool(got['valid'][i, 0]) == valid, 'object', i, 'valid is', got['valid'][i, 0],
            'expected', valid, lab)
    if not valid:
      for k in ref.FIELDS:
        eq(got[k][i, 0], np.float32(-1), f'{k} of invalid object')
      labels.add(lab)
      continue
    tol = 2e-6 * (20 + abs(cur['x']) + abs(cur['y']) + np.abs(log['x']).max() + np.abs(log['y']).max())
    for k in ref.FIELDS:
      if k == 'yaw':
        eq(got[k][i, 0], np.float32(want[k]), f'heading of object {i} is not that of the route')
      else:
        close(got[k][i, 0], want[k], f'{k} of object {i} ({lab})',
              tol if k in 'xy' else 1e-4)
    labels.add(lab)
  return [l for l in labels]


# -------------------------------------------------------------------- IDM ----
PARAMS = (dict(), dict(desired_vel=12.0, min_spacing=1.0, safe_time_headway=1.2, max_accel=1.0,
                       max_decel=3.0, delta=2.0),
          dict(additional_lookahead_points=4, additional_lookahead_distance=20.0, max_accel=3.0),
          dict(lookahead_from_current_position=False, max_lookahead=3, additional_lookahead_points=5,
               additional_lookahead_distance=5.0))


def idm(i):
  def make():
    import jax
    from waymax.agents import waypoint_following_agent as w
    p = w.IDMRoutePolicy(**PARAMS[i])
    return jax.jit(p.update_speed), jax.jit(p.update_trajectory)
  return envs.cached(('c22i', i), make)


@st.composite
def idm_case(draw):
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
  t = draw(st.integers(0, T - 1))
  src = gens.Src(draw, 200)
  s = sc['sim']
  if src.u8(1)[0] % 4:
    s['valid'][:, t] = True
  s['yaw'][:, t] = src.sym((N,), np.pi)
  sp = src.unit((N,), 0, 25)
  for i in range(N):
    k = src.u8(1)[0]
    if k % 5 == 1:
      sp[i] = 0
    if k % 3 != 2 and i:  # somewhere ahead of (or behind, or beside) an earlier one
      j = int(src.u8(1)[0] % i)
      dist = src.sym((), 22.0) if k % 2 else abs(src.sym((), 16.0))
      lat = src.sym((), 1.5) if k % 4 else src.sym((), 8.0)
      a = s['yaw'][j, t]
      s['x'][i, t] = s['x'][j, t] + dist * np.cos(a) - lat * np.sin(a)
      s['y'][i, t] = s['y'][j, t] + dist * np.sin(a) + lat * np.cos(a)
      if k % 2:
        s['yaw'][i, t] = a + src.sym((), .4)
  heading = s['yaw'][:, t]
  s['vel_x'][:, t] = sp * np.cos(heading)
  s['vel_y'][:, t] = sp * np.sin(heading)
  pick = draw(st.integers(0, len(PARAMS) - 1))
  if pick == 3:
    for i in range(N):
      j = int(src.u8(1)[0] % 5)
      if src.u8(1)[0] % 2:
        for k in ('x', 'y'):
          s[k][i, t] = sc['log'][k][i, j]
  sc['timestep'] = t
  return dict(sc=sc, t=t, pick=pick)


def idm_model(c, i):
  """(speed, decided, has lead, tolerance) for object i."""
  p = dict(desired_vel=30.0, min_spacing=2.0, safe_time_headway=2.0, max_accel=2.0, max_decel=4.0,
           delta=4.0, max_lookahead=10, lookahead_from_current_position=True,
           additional_lookahead_points=10, additional_lookahead_distance=10.0)
  p.update(PARAMS[c['pick']])
  cur = ref.at(ref.f64(c['sc']['sim']), c['t'])
  log = {k: v[i] for k, v in ref.f64(c['sc']['log']).items()}
  decided = True
  v = np.hypot(cur['vel_x'], cur['vel_y'])
  if p['lookahead_from_current_position']:
    path = [tuple(cur[k][i] for k in ('x', 'y', 'z', 'length', 'width', 'yaw', 'valid'))]
  else:
    d = np.sqrt(sum((log[k] - cur[k][i]) ** 2 for k in 'xyz'))
    d = np.where(log['valid'], d, np.inf)
    a = int(np.argmin(d))
    if not log['valid'].any() or a + p['max_lookahead'] > len(d):
      return 0, False, False, 0
    decided &= not ((d < d[a] + 1e-3) & (np.arange(len(d)) != a)).any()
    path = [tuple(log[k][j] for k in ('x', 'y', 'z', 'length', 'width', 'yaw', 'valid'))
            for j in range(a, a + p['max_lookahead'])]
  n = p['additional_lookahead_points']
  x, y, z, l, w, yaw, ok = path[-1]
  for k in range(1, n + 1):
    s = p['additional_lookahead_distance'] * k / n
    path.append((x + s * np.cos(yaw), y + s * np.sin(yaw), z, l, w, yaw, ok))
  lead = []
  for (x, y, z, l, w, yaw, ok) in path:
    hit = []
    for j in range(len(v)):
      if j == i or not cur['valid'][j] or not ok:
        continue
      ov, sure, _ = c09.decide(np.array([x, y, l, w, yaw]),
                               np.array([cur[k][j] for k in ('x', 'y', 'length', 'width', 'yaw')]))
      decided &= bool(sure)
      if ov:
        hit.append(v[j])
    if hit:
      dist = np.sqrt((x - cur['x'][i]) ** 2 + (y - cur['y'][i]) ** 2 + (z - cur['z'][i]) ** 2)
      lead.append((dist, min(hit)))
  if not lead:
    acc = p['max_accel'] * (1 - (v[i] / p['desired_vel']) ** p['delta'])
    return max(0, v[i] + DT * acc), decided, False, 1e-4 * (1 + abs(acc))
  dist, lv = lead[0]
  if min(q[0] for q in lead) < dist - 1e-9:
    return 0, False, True, 0
  if 0 < dist < 1e-3:
    return 0, False, True, 0  # numerically zero or not?
  dist = dist if dist > 0 else 0.1
  s = p['min_spacing'] + max(0, v[i] * p['safe_time_headway'] + v[i] * (v[i] - lv) /
                             (2 * np.sqrt(p['max_accel'] * p['max_decel'])))
  acc = p['max_accel'] * (1 - (v[i] / p['desired_vel']) ** p['delta'] - (s / dist) ** 2)
  # float32 error of the distance propagates through (s / d)^2.
  derr = 1e-6 * (10 + abs(cur['x'][i]) + abs(cur['y'][i]))
  tol = 1e-4 * (1 + abs(acc)) + DT * p['max_accel'] * 2 * s * s / dist ** 3 * derr
  return max(0, v[i] + DT * acc), decided, True, tol


@R.law(idm_case(), quick=450, name='intelligent driver model')
def driver_model(c):
  fs, ft = idm(c['pick'])
  state = gens.to_state(c['sc'], c['t'])
  speed, ok = (np.asarray(a) for a in fs(state))
  cur = ref.at(c['sc']['sim'], c['t'])
  n_obj = len(cur['valid'])
  require(speed.shape == (n_obj,) and ok.shape == (n_obj,), 'shape', speed.shape)
  require((speed[cur['valid']] >= 0).all(), 'negative speed', speed)
  labels = set()
  for i in range(n_obj):
    if not cur['valid'][i]:
      continue
    want, decided, lead, tol = idm_model(c, i)
    if not decided:
      continue
    close(speed[i], want, f'IDM speed of object {i} (lead: {lead})', tol, 1e-4)
    require(ok[i], 'IDM speed not valid', i)
    if lead:
      labels.add('lead')
      labels.add('stop' if want == 0 else 'slow')
    else:
      labels.add('free')
  return labels if 'lead' in labels else []


@st.composite
def ignore_case(draw):
  c = draw(idm_case())
  c['pick'] = min(c['pick'], 2)
  c['i'] = draw(st.integers(0, N - 1))
  src = gens.Src(draw, 40)
  c['move'] = src.sym((N, 5), 30.0)
  s = c['sc']['sim']
  for j in range(N):
    how = src.u8(1)[0] % 3
    if how == 1 or j == c['i']:
      s['valid'][j, c['t']] = j == c['i']
    elif how == 2:
      s['x'][j, c['t']] = s['x'][c['i'], c['t']] + 41 + 10 * j
  return c


@R.law(ignore_case(), quick=150, name='invalid and distant objects are ignored')
def ignored(c):
  """Moving invalid objects, or objects out of reach, changes no speed of i."""
  fs, _ = idm(c['pick'])
  i, t = c['i'], c['t']
  base = np.asarray(fs(gens.to_state(c['sc'], t))[0])
  cur = ref.at(c['sc']['sim'], t)
  if not cur['valid'][i]:
    return []
  sc = dict(c['sc'], sim={k: v.copy() for k, v in c['sc']['sim'].items()})
  labels = set()
  for j in range(N):
    if j == i:
      continue
    far = np.hypot(cur['x'][j] - cur['x'][i], cur['y'][j] - cur['y'][i]) > 40
    if not cur['valid'][j]:
      for n, k in enumerate(ref.FIELDS):
        sc['sim'][k][j, t] = c['move'][j, n] if j % 2 else cur[k][i]
      labels.add('invalid')
    elif far:
      sc['sim']['valid'][j, t] = False
      labels.add('far')
  got = np.asarray(fs(gens.to_state(sc, t))[0])
  eq(got[i], base[i], f'speed of object {i} depends on irrelevant objects')
  return labels


# --------------------------------------------------------------- episodes ----
@st.composite
def episode_case(draw):
  """Straight routes with increasing arc length; the objects start on them."""
  src = gens.Src(draw, 120)
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1))
  yaw = src.sym((N,), np.pi)
  s0, v = src.sym((N, 2), 30.0), src.unit((N,), 1.0, 12.0)
  gap = src.unit((N, T), .2, 1.5) * draw(st.sampled_from([1.0, 0.4, 0.4]))
  arc = np.cumsum(gap, 1) - gap[:, :1]
  for part in ('log', 'sim'):
    p = sc[part]
    p['x'] = (s0[:, :1] + arc * np.cos(yaw)[:, None]).astype(np.float32)
    p['y'] = (s0[:, 1:] + arc * np.sin(yaw)[:, None]).astype(np.float32)
    p['yaw'] = np.repeat(yaw[:, None], T, 1).astype(np.float32)
    p['vel_x'] = np.repeat((v * np.cos(yaw))[:, None], T, 1).astype(np.float32)
    p['vel_y'] = np.repeat((v * np.sin(yaw))[:, None], T, 1).astype(np.float32)
    p['valid'] = np.ones((N, T), bool)
  return dict(sc=sc, yaw=yaw, s0=s0, arc=arc, n=draw(st.integers(2, T - 1)),
              which=draw(st.sampled_from(['idm', 'const', 'idm_end'])),
              speed=float(draw(st.sampled_from([0.0, 0.5, 3.0, 9.0]))))


def episode_fn(which, speed):
  def make():
    import jax
    from waymax import dynamics
    from waymax.agents import constant_speed, waypoint_following_agent as w
    pol = (constant_speed.ConstantSpeedPolicy(speed=speed) if which == 'const' else
           w.IDMRoutePolicy(invalidate_on_end=which == 'idm_end'))
    d = dynamics.StateDynamics()

    def f(state):
      out = pol.select_action({}, state, None, None)
      traj = d.forward(out.action, state.sim_trajectory, state.log_trajectory,
                       out.is_controlled, state.timestep)
      return state.replace(sim_trajectory=traj, timestep=state.timestep + 1), out, pol.update_speed(state)
    return jax.jit(f)
  return envs.cached(('c22e', which, speed if which == 'const' else 0), make)


@R.law(episode_case(), quick=200, name='episode on straight routes')
def episode(c):
  f = episode_fn(c['which'], c['speed'])
  state = gens.to_state(c['sc'], 0)
  yaw = np.asarray(c['yaw'], float)
  u = np.stack([np.cos(yaw), np.sin(yaw)], -1)
  nrm = np.stack([-u[:, 1], u[:, 0]], -1)
  labels = set()
  last = c['arc'][:, -1]
  alive = ~c['sc']['md']['is_sdc']
  for step in range(c['n']):
    cur = {k: v[:, step] for k, v in ref.f64(gens.traj_np(state.sim_trajectory)).items()}
    new_state, out, (sp, _) = f(state)
    eq(np.asarray(out.is_controlled), ~c['sc']['md']['is_sdc'], 'control mask')
    ok = np.asarray(out.action.valid)[:, 0]
    sp = np.asarray(sp, float)
    nxt = {k: v[:, step + 1] for k, v in ref.f64(gens.traj_np(new_state.sim_trajectory)).items()}
    if c['which'] == 'const':
      close(sp, np.full(N, c['speed']), 'constant speed')
    for i in range(N):
      if not alive[i]:
        continue
      pos0 = np.array([cur['x'][i], cur['y'][i]]) - c['s0'][i]
      s_before = pos0 @ u[i]
      v0 = np.hypot(cur['vel_x'][i], cur['vel_y'][i])
      ahead = s_before + (v0 + sp[i]) / 2 * DT
      near_end = ahead > c['arc'][i, -2] - .3 or abs(last[i] - c['arc'][i, -2]) < .1
      if not ok[i]:
        require(c['which'] != 'idm', 'IDM invalidated an object', i)
        require(near_end, 'object', i, 'invalidated before the end of its route', s_before, last[i])
        require(sp[i] > 1 - 1e-3, 'a slow object was invalidated at the end')
        alive[i] = False
        labels.add('ended')
        continue
      d = np.array([nxt['x'][i], nxt['y'][i]]) - c['s0'][i]
      require(abs(d @ nrm[i]) < 2e-3, 'object', i, 'left its route by', d @ nrm[i])
      require(d @ u[i] - s_before > -2e-3, 'object', i, 'moved backwards', d @ u[i] - s_before)
      require(ref.angdiff(nxt['yaw'][i], yaw[i]) < 1e-5, 'heading')
      if not near_end:
        close(d @ u[i], ahead, f'distance travelled by object {i}', 3e-3)
        close(np.hypot(nxt['vel_x'][i], nxt['vel_y'][i]), sp[i], 'speed', 1e-3)
        labels.add('follow')
      elif c['which'] != 'idm':
        require(d @ u[i] < last[i] + 0.8, 'object', i, 'drove past its last waypoint', d @ u[i], last[i])
    state = new_state
  return labels


@st.composite
def full_case(draw):
  sc = draw(gens.big(N=12, P=2, drift=1.0))
  t = sc['timestep']
  r = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
  s = sc['sim']
  for i in range(1, 12):  # queues behind the first objects
    j = r.randint(0, i)
    if r.rand() < .6:
      a, d, lat = s['yaw'][j, t], r.uniform(-5, 20), r.uniform(-1.5, 1.5)
      s['x'][i, t] = s['x'][j, t] + d * np.cos(a) - lat * np.sin(a)
      s['y'][i, t] = s['y'][j, t] + d * np.sin(a) + lat * np.cos(a)
      s['valid'][i, t] = True
  return dict(sc=sc, t=t, speed=r.uniform(0, 20, 12).astype(np.float32), ok=r.rand(12) < .9,
              end=draw(st.booleans()), pick=draw(st.sampled_from([0, 3])))


@R.law(full_case(), quick=30, name='full-size scenes', rule='12 objects, 91 steps; non-trivial: a lead is found')
def full_size(c):
  projection(c)
  return driver_model(c)


def make_own():
  """Route followers in states that are each at their own timestep."""
  from waymax import agents as A
  from waymax.agents import constant_speed
  acts = dict(idm=A.IDMRoutePolicy(), const=constant_speed.ConstantSpeedPolicy(speed=4.0))

  def f(s, _):
    out = {}
    for k, a in acts.items():
      o = a.select_action({}, s, None, None)
      out[k] = dict(data=o.action.data * o.action.valid, valid=o.action.valid, on=o.is_controlled)
    return out
  return f


batching.own_timesteps(R, make_own)
