"""C15: log divergence and kinematic infeasibility measure the simulated motion."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, close, eq, require, Violation

R = Registry('C15', 'Random simulated and logged trajectories, and transitions '
             'built from accelerations and curvatures around the limits (both '
             'signs, low speeds, headings across the wrap point); oracle: '
             'float64 distances and bicycle inverse, margins around the '
             'thresholds skipped. Non-trivial: a non-zero value is expected for '
             'a valid object.')
N, T = 4, 4
PARAMS = [dict(), dict(dt=0.2), dict(dt=0.1, max_acc=3.0, max_steering=0.1)]


def fn(i):
  def make():
    import jax
    from waymax import metrics as m
    from waymax.metrics import comfort
    met = comfort.KinematicsInfeasibilityMetric(**PARAMS[i])
    return (jax.jit(met.compute),
            jax.jit(lambda tr, t: met.compute_kinematics_infeasibility(tr, t)))
  return envs.cached(('c15', i), make)


def div():
  def make():
    import jax
    from waymax import metrics as m
    return (jax.jit(m.LogDivergenceMetric().compute),
            jax.jit(m.LogDivergenceMetric.compute_log_divergence))
  return envs.cached('c15d', make)


@st.composite
def case(draw):
  nb = draw(st.sampled_from([0, 0, 2]))
  t = draw(st.integers(0, T - 1))
  pi = draw(st.integers(0, len(PARAMS) - 1))
  p = dict(dt=0.1, max_acc=10.4, max_steering=0.3)
  p.update(PARAMS[pi])
  scs = []
  for _ in range(nb or 1):
    sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
    if t and draw(st.integers(0, 3)):
      src = gens.Src(draw, 2 * (8 * N) + 5 * N)
      speed = np.where(src.u8(N) % 4 == 0, src.unit((N,), 0, 1.2), src.unit((N,), 0, 20))
      acc = p['max_acc'] * src.sym((N,), 2.2)
      steer = p['max_steering'] * src.sym((N,), 2.2)
      calm = src.u8(N) % 4
      acc = np.where(calm == 0, acc * .2, acc)
      steer = np.where(calm == 1, steer * .2, steer)
      d = ref.Dyn('bicycle', max_accel=1e6, max_steering=1e6, dt=p['dt'])
      s = sc['sim']
      heading = s['yaw'][:, t - 1].astype(float)
      cur = dict(x=s['x'][:, t - 1], y=s['y'][:, t - 1], yaw=heading,
                 vel_x=speed * np.cos(heading), vel_y=speed * np.sin(heading))
      new = d.update(cur, np.stack([acc, steer], -1))
      for k in ref.FIELDS:
        s[k][:, t - 1] = cur[k]
        s[k][:, t] = new[k]
      if draw(st.booleans()):
        s['valid'][:, t - 1:t + 1] = True
    sc['timestep'] = t
    scs.append(sc)
  sc = gens.stack_cases(scs) if nb else envs.shift_world(draw, scs[0])
  return dict(sc=sc, b=nb, t=t, p=pi)


@R.law(case(), quick=400, name='kinematic infeasibility')
def kim(c):
  sc, t = c['sc'], c['t']
  s = gens.to_state(sc, t)
  f, g = fn(c['p'])
  res, res2 = f(s), g(s.sim_trajectory, t)
  p = dict(dt=0.1, max_acc=10.4, max_steering=0.3)
  p.update(PARAMS[c['p']])
  sim = sc['sim']
  d = ref.Dyn('bicycle', max_accel=1e9, max_steering=1e9, dt=p['dt'])
  a, valid, safe, tol = d.inverse(sim, max(t - 1, 0))
  valid = valid & (t > 0)  # no transition leads to the first timestep
  val = np.asarray(res.value)
  eq(np.asarray(res.valid), valid, 'validity')
  require(np.isin(val, [0., 1.]).all(), 'not an indicator', val)
  eq(np.asarray(res2.value), val, 'compute_kinematics_infeasibility')
  eq(np.asarray(res2.valid), valid, 'compute_kinematics_infeasibility valid')
  lim = np.asarray([p['max_acc'], p['max_steering']])
  over = (np.abs(a) - lim) > tol + 2e-3
  under = (np.abs(a) - lim) < -tol
  must1 = valid & safe & over.any(-1)
  must0 = valid & safe & under.all(-1)
  require((val[must1] == 1).all(), 'infeasible transition not reported', val.tolist(),
          'needed', a.tolist())
  require((val[must0] == 0).all(), 'feasible transition reported', val.tolist(),
          'needed', a.tolist())
  # Only the last transition of the simulated trajectory matters.
  sc2 = dict(sc, sim={k: v.copy() for k, v in sim.items()},
             log={k: np.flip(v, -2) if v.dtype != bool else ~v for k, v in sc['log'].items()})
  for k in ref.FIELDS:
    sc2['sim'][k][..., :max(t - 1, 0)] += 3
    sc2['sim'][k][..., t + 1:] += 3
  sc2['sim']['valid'][..., :max(t - 1, 0)] ^= True
  sc2['sim']['valid'][..., t + 1:] ^= True
  r = f(gens.to_state(sc2, t))
  eq(np.asarray(r.value), val, 'other steps matter')
  eq(np.asarray(r.valid), valid, 'other steps matter (validity)')
  return (['infeasible'] if must1.any() else []) + (
      ['mixed'] if must1.any() and must0.any() else [])


@R.law(case(), quick=250, name='log divergence')
def divergence(c):
  sc, t = c['sc'], c['t']
  f, g = div()
  s = gens.to_state(sc, t)
  res = f(s)
  a, b = sc['sim'], sc['log']
  e = np.hypot(a['x'].astype(float) - b['x'], a['y'].astype(float) - b['y'])
  tol = 2e-6 * (np.abs(a['x']) + np.abs(a['y']) + np.abs(b['x']) + np.abs(b['y'])) + 1e-5
  valid = a['valid'][..., t] & b['valid'][..., t]
  close(res.value, e[..., t], 'log divergence', tol[..., t])
  eq(np.asarray(res.valid), valid, 'validity')
  full = g(s.sim_trajectory.xy, s.log_trajectory.xy)
  close(full, e, 'compute_log_divergence', tol)
  same = f(s.replace(sim_trajectory=s.log_trajectory))
  require((np.asarray(same.value) == 0).all(), 'divergence of the log from itself')
  return ['diverged'] if (valid & (e[..., t] > .1)).any() else []


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=2))
  return dict(sc=sc, b=0, t=sc['timestep'], p=0)


@R.law(full_case(), quick=60, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  return kim(c) + divergence(c)


def make_own():
  """The metrics of states that are each at their own timestep."""
  from waymax import config as C, metrics as M
  cfg = C.MetricsConfig(metrics_to_run=('log_divergence', 'kinematic_infeasibility'))

  def f(s, _):
    return {k: (v.masked_value(), v.valid) for k, v in M.run_metrics(s, cfg).items()}
  return f


batching.own_timesteps(R, make_own)
