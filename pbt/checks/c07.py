"""C07: actions are clipped to the declared bounds; specs describe accepted actions."""
import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from harness import Registry, eq, close, require, Violation
from checks import c06

R = Registry('C07', 'Random bounds, normalization settings, actions up to far '
             'outside the bounds and arbitrary transitions; oracles: declared '
             'spec, clipped-action equivalence, normalized/unnormalized '
             'equivalence; non-trivial: some action or transition is out of '
             'bounds.')

BOUNDS = [0.05, 0.3, 1.0, 2.5, 6.0, 12.0]


@st.composite
def params(draw, kinds=('bicycle', 'delta_global', 'delta_local')):
  kind = draw(st.sampled_from(list(kinds)))
  if kind == 'bicycle':
    p = dict(max_accel=draw(st.sampled_from(BOUNDS)),
             max_steering=draw(st.sampled_from([0.05, 0.3, 1.0])),
             normalize_actions=draw(st.booleans()))
  else:
    p = dict(max_dx=draw(st.sampled_from(BOUNDS)), max_dy=draw(st.sampled_from(BOUNDS)),
             max_dyaw=draw(st.sampled_from([0.1, 1.0, 3.0, float(np.pi)])))
  return kind, p


def spec_of(obj):
  return np.asarray(obj.minimum, np.float64), np.asarray(obj.maximum, np.float64)


@st.composite
def spec_case(draw):
  kind, p = draw(params(kinds=('bicycle', 'delta_global', 'delta_local', 'state')))
  return dict(kind=kind, p=p if kind != 'state' else {}, N=draw(st.integers(1, 6)))


@R.law(spec_case(), quick=120, rule='declared specs')
def spec_matches_configuration(c):
  from waymax import env as E
  d = ref.Dyn(c['kind'], **c['p'])
  m = d.make()
  s = m.action_spec()
  require(tuple(s.shape) == (d.dim,), f'spec shape {s.shape}')
  lo, hi = spec_of(s)
  lo, hi = np.broadcast_to(lo, (d.dim,)), np.broadcast_to(hi, (d.dim,))
  close(hi, d.spec, 'spec maximum', atol=1e-6)
  close(lo, -d.spec, 'spec minimum', atol=1e-6)
  require(np.dtype(s.dtype) == np.float32, f'spec dtype {s.dtype}')
  N = c['N']
  if c['kind'] != 'state':
    e = E.BaseEnvironment(m, envs.config(N=N)).action_spec()
    require(tuple(e.data.shape) == (N, d.dim), f'env spec shape {e.data.shape}')
    require(tuple(e.valid.shape) == (N, 1), f'env valid spec {e.valid.shape}')
    require(np.dtype(e.valid.dtype) == np.bool_, 'env valid dtype')
    elo, ehi = spec_of(e.data)
    close(np.broadcast_to(ehi, (N, d.dim)), np.broadcast_to(d.spec, (N, d.dim)), 'env spec max', atol=1e-6)
    close(np.broadcast_to(elo, (N, d.dim)), np.broadcast_to(-d.spec, (N, d.dim)), 'env spec min', atol=1e-6)
  pe = E.PlanningAgentEnvironment(m, envs.config(N=N)).action_spec()
  require(tuple(pe.data.shape) == (d.dim,) and tuple(pe.valid.shape) == (1,),
          f'planning spec {pe.data.shape} {pe.valid.shape}')
  plo, phi = spec_of(pe.data)
  close(np.broadcast_to(phi, (d.dim,)), d.spec, 'planning spec max', atol=1e-6)
  close(np.broadcast_to(plo, (d.dim,)), -d.spec, 'planning spec min', atol=1e-6)
  return [c['kind']]


@st.composite
def clip_case(draw):
  kind, p = draw(params(kinds=('bicycle',)))
  d = ref.Dyn(kind, **p)
  cur = gens.trajectory(draw, 4, 1)
  src = gens.Src(draw, 2 * 4 * 2 + 8)
  mag = draw(st.sampled_from([1.5, 4.0, 100.0]))
  act = src.sym((4, 2), 1.0) * d.spec * mag
  edge = src.u8(4) % 4  # some exactly on a bound
  act[edge == 0] = d.spec
  act[edge == 1] = -d.spec
  return dict(kind=kind, p=p, cur=cur, act=act.astype(np.float32))


@R.law(clip_case(), quick=300, rule='execution of out-of-bounds bicycle actions')
def execution_clips(c):
  d = ref.Dyn(c['kind'], **c['p'])
  m = d.make()
  tr = gens.to_traj(c['cur'])
  v = np.ones((4, 1), bool)
  cl = np.clip(c['act'], -d.spec.astype(np.float32), d.spec.astype(np.float32))
  a = m.compute_update(envs.to_action(dict(data=c['act'], valid=v)), tr)
  b = m.compute_update(envs.to_action(dict(data=cl, valid=v)), tr)
  for k in ref.FIELDS:
    close(getattr(a, k), np.asarray(getattr(b, k)), f'{k}: action vs clipped action', atol=1e-6)
  eq(np.asarray(a.valid), c['cur']['valid'], 'clipping must not invalidate')
  # And the clipped action is executed by the motion equations.
  cur = ref.at(c['cur'], 0)
  want, tol = d.update(cur, cl), d.tol(cur, cl)
  for k in ('x', 'y', 'vel_x', 'vel_y'):
    close(np.asarray(getattr(a, k))[:, 0], want[k], f'clipped execution {k}', atol=tol[k])
  return ['out'] if (np.abs(c['act']) > d.spec).any() else []


@st.composite
def inv_case(draw):
  kind, p = draw(params())
  T = 4
  tr = gens.trajectory(draw, 4, T)
  return dict(kind=kind, p=p, tr=tr, t=draw(st.integers(0, T - 2)))


@R.law(inv_case(), quick=500, rule='inverse of arbitrary transitions under '
       'arbitrary bounds')
def inverse_within_bounds(c):
  d = ref.Dyn(c['kind'], **c['p'])
  m = d.make()
  out = m.inverse(gens.to_traj(c['tr']), c06.metadata(4), c['t'])
  g = np.asarray(out.data)
  lo, hi = spec_of(m.action_spec())
  require((g <= hi + 1e-6 * np.abs(hi)).all() and (g >= lo - 1e-6 * np.abs(lo)).all(),
          f'inverse outside bounds [{lo}, {hi}]: {g}')
  a, valid, safe, tol = d.inverse(c['tr'], c['t'])
  close(g[safe], a[safe], 'inverse = clipped reference inverse', atol=tol[safe])
  free = ref.Dyn(c['kind'], **{k: (1e9 if k.startswith('max') else v) for k, v in c['p'].items()
                               if k != 'normalize_actions'})
  raw = free.inverse(c['tr'], c['t'])[0]
  lim = d.bound
  return ['out'] if (np.abs(raw) > lim)[valid].any() else []


@st.composite
def norm_case(draw):
  acc, stx = draw(st.sampled_from(BOUNDS)), draw(st.sampled_from([0.05, 0.3, 1.0]))
  src = gens.Src(draw, 32)
  T = 4
  return dict(p=dict(max_accel=acc, max_steering=stx), tr=gens.trajectory(draw, 4, T),
              t=draw(st.integers(0, T - 2)), act=src.sym((4, 2), 1.4))


@R.law(norm_case(), quick=200, rule='normalized versus unnormalized bicycle')
def normalization_equivalence(c):
  n = ref.Dyn('bicycle', normalize_actions=True, **c['p'])
  u = ref.Dyn('bicycle', **c['p'])
  mn, mu = n.make(), u.make()
  tr = gens.to_traj(c['tr'])
  a = mn.inverse(tr, c06.metadata(4), c['t'])
  b = mu.inverse(tr, c06.metadata(4), c['t'])
  close(np.asarray(a.data) * u.bound, np.asarray(b.data), 'normalized inverse × max',
        atol=2e-6 * u.bound)
  eq(np.asarray(a.valid), np.asarray(b.valid), 'inverse validity')
  cur = gens.to_traj({k: v[:, c['t']:c['t'] + 1] for k, v in c['tr'].items()})
  v = np.ones((4, 1), bool)
  x = mn.compute_update(envs.to_action(dict(data=c['act'], valid=v)), cur)
  y = mu.compute_update(envs.to_action(
      dict(data=(c['act'] * u.bound).astype(np.float32), valid=v)), cur)
  d = ref.at(c['tr'], c['t'])
  tol = u.tol(d, c['act'] * u.bound)
  for k in ('x', 'y', 'vel_x', 'vel_y'):
    close(np.asarray(getattr(x, k))[:, 0], np.asarray(getattr(y, k))[:, 0],
          f'normalized execution {k}', atol=tol[k])
  require((ref.angdiff(np.asarray(x.yaw), np.asarray(y.yaw)) < 1e-4).all(), 'normalized yaw')
  return ['ok']
