"""C14: wrong-way, off-route and progression follow the route geometry."""
import itertools
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
from harness import Registry, eq, require, Violation

R = Registry('C14', 'Random, straight and lattice path sets (partly invalid, on '
             'and off route, none valid), SDC placed around them or far away, '
             'valid or not; oracle: brute-force nearest points in float64, every '
             'tie accepted. Non-trivial: valid on-route points exist and the '
             'value is not zero.')
K, M, N, T = 3, 5, 2, 4


def fns():
  def make():
    import jax
    from waymax import metrics as m
    return dict(prog=jax.jit(m.ProgressionMetric().compute),
                off=jax.jit(m.OffRouteMetric().compute),
                wrong=jax.jit(m.WrongWayMetric().compute))
  return envs.cached('c14', make)


@st.composite
def one(draw, t):
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, K=K, M=M, sim='free'))
  src = gens.Src(draw, 80)
  sdc = int(np.argmax(sc['md']['is_sdc']))
  p = sc['paths']
  pk = int(src.u8(1)[0]) % K
  how = src.u8(4)
  scale = draw(st.sampled_from([0.0, 1.0, 4.0, 8.0, 40.0]))
  def near(k, j, s):
    return p['x'][k, j] + src.sym((), s), p['y'][k, j] + src.sym((), s)
  sc['sim']['x'][sdc, t], sc['sim']['y'][sdc, t] = near(pk, how[0] % M, scale)
  k2 = pk if how[3] % 3 else (pk + 1) % K
  sc['log']['x'][sdc, 0], sc['log']['y'][sdc, 0] = near(k2, how[1] % M, 1.0)
  sc['log']['x'][sdc, -1], sc['log']['y'][sdc, -1] = near(k2, how[2] % M, 1.0)
  if how[3] % 4:
    sc['sim']['valid'][sdc, t] = True
  if draw(st.integers(0, 9)) == 0:
    p['valid'][:] = False
  sc['paths']['z'] = src.sym((K, 1), 5) + 0 * p['x']
  sc['paths']['z'] = sc['paths']['z'].astype(np.float32)
  sc['timestep'] = t
  return sc


@st.composite
def case(draw):
  t = draw(st.integers(0, T - 1))
  nb = draw(st.sampled_from([0, 0, 2]))
  scs = [draw(one(t)) for _ in range(nb or 1)]
  sc = gens.stack_cases(scs) if nb else envs.shift_world(draw, scs[0])
  return dict(sc=sc, b=nb, t=t)


def near_sets(dist, tol):
  """Indices tied (within tol) for the minimum of a 1-D distance array."""
  if not np.isfinite(dist).any():
    return []
  return np.flatnonzero(dist <= dist.min() + tol)


@R.law(case(), quick=500)
def route_metrics(c):
  sc, t = c['sc'], c['t']
  s = gens.to_state(sc, t)
  res = {k: f(s) for k, f in fns().items()}
  lab = set()
  for i in range(c['b'] or 1):
    def g(a):
      return np.asarray(a)[i] if c['b'] else np.asarray(a)
    sdc = int(np.argmax(g(sc['md']['is_sdc'])))
    p = {k: g(v) for k, v in sc['paths'].items()}
    x, y = (g(sc['sim'][k])[sdc, t].astype(float) for k in 'xy')
    valid = bool(g(sc['sim']['valid'])[sdc, t])
    tol = 3e-6 * (np.abs(p['x']).max() + np.abs(p['y']).max() + abs(x) + abs(y) + 10)
    d = np.hypot(p['x'].astype(float) - x, p['y'].astype(float) - y)
    d = np.where(p['valid'], d, np.inf)
    d_on = np.where(p['on_route'], d, np.inf)
    d_off = np.where(p['on_route'], np.inf, d)
    for k in res:
      require(g(res[k].value).shape == () and g(res[k].valid).shape == (), 'shape')
    # wrong way
    v, ok = float(g(res['wrong'].value)), bool(g(res['wrong'].valid))
    m = d.min()
    if valid:
      require(ok == np.isfinite(m), 'wrong-way validity', ok)
      if abs(m - 3.5) > tol and np.isfinite(m):
        e = 0.0 if m < 3.5 else m
        require(abs(v - e) <= tol, 'wrong-way', v, 'expected', e, 'distance', m)
        lab |= {'wrong'} if e else set()
    if not np.isfinite(m):
      require(v == 0 and not ok, 'wrong-way without valid paths', v, ok)
    # off route
    v, ok = float(g(res['off'].value)), bool(g(res['off'].valid))
    mon, moff = d_on.min(), d_off.min()
    if not valid or not np.isfinite(mon):
      require(v == 0 and not ok, 'off-route: no valid SDC or on-route path, yet',
              v, ok)
    elif abs(mon - 5) > tol and (abs(mon - moff - 2) > 2 * tol):
      e = mon if (mon > 5 or mon - moff > 2) else 0.0
      require(ok, 'off-route not valid')
      require(abs(v - e) <= tol, 'off-route', v, 'expected', e, 'on', mon, 'off', moff)
      lab |= {'off'} if e else set()
    # progression
    v, ok = float(g(res['prog'].value)), bool(g(res['prog'].valid))
    if not valid or not np.isfinite(mon):
      require(v == 0 and not ok, 'progression without valid SDC or path', v, ok)
      continue
    require(ok, 'progression not valid')
    lx, ly = g(sc['log']['x'])[sdc].astype(float), g(sc['log']['y'])[sdc].astype(float)
    options = []
    for k in near_sets(d_on.min(-1), tol):
      arcs = []
      for qx, qy in ((lx[0], ly[0]), (lx[-1], ly[-1]), (x, y)):
        dd = np.hypot(p['x'][k].astype(float) - qx, p['y'][k].astype(float) - qy)
        dd = np.where(p['valid'][k], dd, np.inf)
        arcs.append([float(a) for a in p['arc_length'][k][near_sets(dd, tol)]])
      for a0, a1, a in itertools.product(*arcs):
        options.append(1.0 if a0 == a1 else (a - a0) / (a1 - a0))
    require(any(abs(v - o) <= 1e-4 * (1 + abs(o)) for o in options),
            'progression', v, 'expected one of', options[:6])
    if len(set(options)) == 1 and options[0] not in (0.0, 1.0):
      lab.add('progress')
  # Invalid path points never influence the results.
  sc2 = dict(sc, paths={k: v.copy() for k, v in sc['paths'].items()})
  inv = ~sc2['paths']['valid']
  for k in ('x', 'y', 'z', 'arc_length'):
    sc2['paths'][k][inv] = sc2['paths'][k][inv] * np.float32(.3) + np.float32(1.5)
  s2 = gens.to_state(sc2, t)
  for k, f in fns().items():
    r = f(s2)
    eq(np.asarray(r.value), np.asarray(res[k].value), f'{k}: invalid points matter')
    eq(np.asarray(r.valid), np.asarray(res[k].valid), f'{k}: invalid points matter')
  # Only the SDC matters.
  sc3 = dict(sc, sim={k: v.copy() for k, v in sc['sim'].items()},
             log={k: v.copy() for k, v in sc['log'].items()})
  oth = ~sc['md']['is_sdc']
  for part in ('sim', 'log'):
    sc3[part]['x'][oth] += 3
    sc3[part]['valid'][oth] = ~sc3[part]['valid'][oth]
  s3 = gens.to_state(sc3, t)
  for k, f in fns().items():
    eq(np.asarray(f(s3).value), np.asarray(res[k].value), f'{k}: other objects matter')
  return sorted(lab)


@R.law(case(), quick=25, name='missing paths')
def missing(c):
  """Route metrics without SDC paths are rejected (documented)."""
  from waymax import metrics as m
  s = gens.to_state(dict(c['sc'], paths=None), c['t'])
  for cls in (m.ProgressionMetric, m.OffRouteMetric):
    try:
      cls().compute(s)
    except ValueError:
      pass
    else:
      raise Violation(f'{cls.__name__} computed without SDC paths')
  return ['rejected']


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=2, K=30, M=400))
  return dict(sc=sc, b=0, t=sc['timestep'])


@R.law(full_case(), quick=60, name='full-size scenes', rule='30 paths of 400 points')
def full_size(c):
  return route_metrics(c)


def make_own():
  """The metrics of states that are each at their own timestep."""
  from waymax import config as C, metrics as M
  cfg = C.MetricsConfig(metrics_to_run=('sdc_wrongway', 'sdc_off_route', 'sdc_progression'))

  def f(s, _):
    return {k: (v.masked_value(), v.valid) for k, v in M.run_metrics(s, cfg).items()}
  return f


batching.own_timesteps(R, make_own)
