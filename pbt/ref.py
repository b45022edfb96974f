"""NumPy float64 reference models, written from the documentation."""
import numpy as np

F = np.float64
DT = 0.1
FIELDS = ('x', 'y', 'yaw', 'vel_x', 'vel_y')
SIZES = ('z', 'length', 'width', 'height')


def f64(d):
  return {k: np.asarray(v, F) if np.asarray(v).dtype.kind == 'f' else np.asarray(v)
          for k, v in d.items()}


def wrap(a):
  return (np.asarray(a, F) + np.pi) % (2 * np.pi) - np.pi


def angdiff(a, b):
  return np.abs(wrap(np.asarray(a, F) - np.asarray(b, F)))


def at(tr, t):
  """Trajectory dict (..., T) -> dict (...,) at index t."""
  return {k: v[..., t] for k, v in tr.items()}


# ------------------------------------------------------------- dynamics ------
class Dyn:
  """Reference dynamics.  kind: bicycle, delta_global, delta_local, state."""

  def __init__(self, kind, **p):
    self.kind, self.p = kind, p
    if kind == 'bicycle':
      self.dim = 2
      self.bound = np.array([p.get('max_accel', 6.0), p.get('max_steering', 0.3)])
      self.norm = p.get('normalize_actions', False)
      self.spec = np.ones(2) if self.norm else self.bound
    elif kind in ('delta_global', 'delta_local'):
      self.dim = 3
      self.bound = np.array([p.get('max_dx', 6.0), p.get('max_dy', 6.0),
                             p.get('max_dyaw', np.pi)])
      self.spec = self.bound
    else:
      self.dim = 5
      self.bound = self.spec = np.full(5, np.inf)
    self.dt = p.get('dt', DT)

  def make(self):
    from waymax import dynamics
    cls = dict(bicycle=dynamics.InvertibleBicycleModel,
               delta_global=dynamics.DeltaGlobal,
               delta_local=dynamics.DeltaLocal,
               state=dynamics.StateDynamics)[self.kind]
    return cls(**self.p)

  def update(self, cur, act):
    """cur: dict of (N,), act: (N, dim). Returns dict of float64 (N,)."""
    cur = f64(cur)
    a = np.asarray(act, F)
    t = self.dt
    x, y, yaw, vx, vy = (cur[k] for k in FIELDS)
    if self.kind == 'bicycle':
      a = np.clip(a, -self.spec, self.spec)
      if self.norm:
        a = a * self.bound
      acc, st = a[..., 0], a[..., 1]
      sp = np.hypot(vx, vy)
      ny = wrap(yaw + st * (sp * t + .5 * acc * t * t))
      nv = sp + acc * t
      return dict(x=x + vx * t + .5 * acc * np.cos(yaw) * t * t,
                  y=y + vy * t + .5 * acc * np.sin(yaw) * t * t,
                  yaw=ny, vel_x=nv * np.cos(ny), vel_y=nv * np.sin(ny))
    if self.kind in ('delta_global', 'delta_local'):
      # Callers pass in-bounds actions; out-of-bounds ones belong to C07.
      dx, dy = a[..., 0], a[..., 1]
      if self.kind == 'delta_local':
        dx, dy = (np.cos(yaw) * dx - np.sin(yaw) * dy,
                  np.sin(yaw) * dx + np.cos(yaw) * dy)
      return dict(x=x + dx, y=y + dy, yaw=yaw + a[..., 2], vel_x=dx / t,
                  vel_y=dy / t)
    return dict(zip(FIELDS, np.moveaxis(a, -1, 0)))

  def inverse(self, tr, t):
    """Returns (action (N, dim) float64, valid (N,), safe (N,) bool, atol)."""
    tr = f64(tr)
    c, n = at(tr, t), at(tr, t + 1)
    if self.kind == 'state':
      a = np.stack([n[k] for k in FIELDS], -1)
      return a, n['valid'], np.ones(n['valid'].shape, bool), np.zeros(a.shape)
    valid = c['valid'] & n['valid']
    if self.kind == 'bicycle':
      v0, v1 = np.hypot(c['vel_x'], c['vel_y']), np.hypot(n['vel_x'], n['vel_y'])
      acc = (v1 - v0) / self.dt
      real = np.where(v1 > .6, np.arctan2(n['vel_y'], n['vel_x']), n['yaw'])
      delta = wrap(real - c['yaw'])
      den = 0.5 * (v0 + v1) * self.dt
      slow = (v0 < .6) | (v1 < .6)
      st = np.where(slow, 0, delta / np.where(slow, 1, den))
      a = np.stack([acc, st], -1)
      tol = np.stack([4e-7 * (1 + v0 + v1) / self.dt + 1e-5,
                      1e-5 * (1 + np.abs(c['yaw']) + np.abs(n['yaw'])) /
                      np.where(slow, 1, den) + 1e-5 * np.abs(st) + 1e-5], -1)
      safe = ((np.abs(v0 - .6) > 1e-4) & (np.abs(v1 - .6) > 1e-4) &
              ((np.abs(np.abs(delta) - np.pi) > 1e-4) | slow))
      raw = a.copy()
      if self.norm:
        a, tol = a / self.bound, tol / self.bound
      a = np.clip(a, -self.spec, self.spec)
      del raw
    else:
      d = np.stack([n['x'] - c['x'], n['y'] - c['y'], n['yaw'] - c['yaw']], -1)
      safe = np.abs(np.abs(wrap(d[..., 2])) - np.pi) > 1e-4
      d[..., 2] = wrap(d[..., 2])
      big = (np.abs(c['x']) + np.abs(c['y']) + np.abs(n['x']) + np.abs(n['y']))
      tol = np.stack([1e-6 * (1 + big)] * 2 + [1e-6 * (4 + np.abs(c['yaw']) +
                                                      np.abs(n['yaw']))], -1)
      if self.kind == 'delta_local':
        # The global displacement is clipped first, then rotated and clipped.
        d = np.clip(d, -self.spec, self.spec)
        dx, dy = d[..., 0].copy(), d[..., 1].copy()
        cs, sn = np.cos(c['yaw']), np.sin(c['yaw'])
        d[..., 0], d[..., 1] = cs * dx + sn * dy, -sn * dx + cs * dy
        tol[..., :2] += 2e-6 * (1 + np.abs(dx) + np.abs(dy))[..., None] * (1 + np.abs(c['yaw']))[..., None]
      a = np.clip(d, -self.spec, self.spec)
    a = np.where(valid[..., None], a, 0.0)
    return a, valid, safe | ~valid, tol

  def tol(self, cur, act):
    """Absolute tolerance per field from float32 rounding of the inputs."""
    cur = f64(cur)
    a = np.where(np.isfinite(act), np.abs(np.asarray(act, F)), 0)
    if self.kind == 'bicycle':
      a = np.minimum(a, self.spec)
    big = 1 + a.max(-1)
    pos = 4e-7 * (np.abs(cur['x']) + np.abs(cur['y']) + 10 * big) + 1e-5
    sp = np.hypot(cur['vel_x'], cur['vel_y'])
    if self.kind == 'bicycle':
      ang = 1e-6 * (4 + np.abs(cur['yaw'])) + 1e-5
      v = (sp + 10) * (ang + 1e-6) + 1e-5
      return dict(x=pos, y=pos, yaw=ang, vel_x=v, vel_y=v)
    ang = 1e-6 * (4 + np.abs(cur['yaw']) + big)
    v = 3e-6 * (1 + big) / self.dt + 1e-6
    pos = pos + 3e-6 * big
    return dict(x=pos, y=pos, yaw=ang, vel_x=v, vel_y=v)


# ------------------------------------------------------- environment step ----
def control_mask(sc, ctrl, inj, init_steps, sim_valid):
  if ctrl == 'VALID' and not inj:
    return np.asarray(sim_valid)[..., init_steps - 1]
  return {'SDC': sc['md']['is_sdc'], 'MODELED': sc['md']['is_modeled'],
          'VALID': sc['md']['is_valid']}[ctrl]


def next_valid(cur_valid, log_next, controlled, inj):
  ec = controlled & cur_valid
  return np.where(ec, True, log_next if inj else (cur_valid & log_next))


# --------------------------------------------------------------- geometry ----
def corners(x, y, l, w, yaw):
  """(..., 4, 2): front-right first, counter-clockwise."""
  x, y, l, w, yaw = (np.asarray(v, F) for v in (x, y, l, w, yaw))
  c, s = np.cos(yaw), np.sin(yaw)
  out = []
  for sl, sw in ((1, -1), (1, 1), (-1, 1), (-1, -1)):
    dx, dy = sl * l / 2, sw * w / 2
    out.append(np.stack([x + c * dx - s * dy, y + s * dx + c * dy], -1))
  return np.stack(out, -2)


def box_gap(a, b):
  """Signed separation of oriented boxes (x,y,l,w,yaw): max over the four face
  normals of the gap; >0 separated, <0 overlapping (penetration)."""
  a, b = np.asarray(a, F), np.asarray(b, F)
  ca, cb = corners(*np.moveaxis(a, -1, 0)), corners(*np.moveaxis(b, -1, 0))
  best = np.full(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]), -np.inf)
  for yaw in (a[..., 4], b[..., 4]):
    for off in (0, np.pi / 2):
      n = np.stack([np.cos(yaw + off), np.sin(yaw + off)], -1)
      pa = (ca * n[..., None, :]).sum(-1)
      pb = (cb * n[..., None, :]).sum(-1)
      gap = np.maximum(pa.min(-1) - pb.max(-1), pb.min(-1) - pa.max(-1))
      best = np.maximum(best, gap)
  return best


def poly_area_intersection(p, q):
  """Area of the intersection of two convex CCW polygons (Sutherland-Hodgman)."""
  out = [tuple(v) for v in p]
  for i in range(len(q)):
    ax, ay = q[i]
    bx, by = q[(i + 1) % len(q)]
    inp, out = out, []
    if not inp:
      return 0.0
    side = [(bx - ax) * (v[1] - ay) - (by - ay) * (v[0] - ax) for v in inp]
    for j in range(len(inp)):
      k = (j + 1) % len(inp)
      if side[j] >= 0:
        out.append(inp[j])
      if (side[j] >= 0) != (side[k] >= 0):
        r = side[j] / (side[j] - side[k])
        out.append((inp[j][0] + r * (inp[k][0] - inp[j][0]),
                    inp[j][1] + r * (inp[k][1] - inp[j][1])))
  if len(out) < 3:
    return 0.0
  v = np.asarray(out)
  n = np.roll(v, -1, 0)
  return 0.5 * abs(np.sum(v[:, 0] * n[:, 1] - v[:, 1] * n[:, 0]))


def rigid(x, y, ang, tx, ty):
  c, s = np.cos(ang), np.sin(ang)
  x, y = np.asarray(x, F), np.asarray(y, F)
  return c * x - s * y + tx, s * x + c * y + ty
