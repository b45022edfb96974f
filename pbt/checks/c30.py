"""C30: a rendered frame draws the state it is given, and changes nothing."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import envs
import gens
import ref
from checks import c09
from harness import Registry, Violation, eq, require, tree_eq

R = Registry('C30', 'Random scenes, timesteps, view configurations, batch entries '
             'and highlighted roles, rendered with the Agg backend; oracle: the '
             'float64 box corners, points, colours, labels and view limits '
             'computed from the state, against the artists on the axes and '
             'the returned pixels. Non-trivial: something valid is drawn.',
             ['objects whose overlap is within float32 error of contact may have '
              'either colour', 'traffic light states are 0-8', 'frames are drawn '
              'with matplotlib lines and texts'])
N, T, P, L = 4, 5, 10, 3
SHOWN = (1, 2, 3, 15, 16, 17, 18, 19)
RED, YELLOW, GREEN = (1, 0, 0), (1, 1, 0), (0, 1, 0)
LIGHT = {0: (.75, .75, .75), 1: RED, 2: YELLOW, 3: GREEN, 4: RED, 5: YELLOW,
         6: GREEN, 7: YELLOW, 8: YELLOW}
ROLE = dict(controlled=(0, .6, .8), context=(.6, .6, .6), history=(.8, .8, .8), overlap=RED)
ROAD = {1: (230,) * 3, 2: (230,) * 3, 3: (230,) * 3, 15: (80,) * 3, 16: (80,) * 3,
        17: (255, 0, 0), 18: (200,) * 3, 19: (200,) * 3}
TOL = 5e-3
VIEWS = [dict(front_x=20.0, back_x=20.0, front_y=20.0, back_y=20.0, px_per_meter=4.0),
         dict(front_x=40.0, back_x=10.0, front_y=30.0, back_y=20.0, px_per_meter=4.0),
         dict(front_x=15.0, back_x=35.0, front_y=10.0, back_y=65.0, px_per_meter=2.0)]


class Capture:
  """Collects the figures created while active."""

  def __enter__(self):
    from matplotlib.figure import Figure
    self.figs, self.cls, self.init = [], Figure, Figure.__init__
    figs, init = self.figs, self.init

    def new(fig, *a, **k):
      figs.append(fig)
      return init(fig, *a, **k)
    Figure.__init__ = new
    return self

  def __exit__(self, *a):
    self.cls.__init__ = self.init


def artists(ax):
  """(closed polygons, points, texts) with colours, in drawing order."""
  from matplotlib.colors import to_rgb
  polys, pts = [], []
  for line in sorted(ax.get_lines(), key=lambda l: l.get_zorder()):
    xy = np.stack([np.asarray(line.get_xdata(orig=True), float).reshape(-1),
                   np.asarray(line.get_ydata(orig=True), float).reshape(-1)], -1)
    col = np.asarray(to_rgb(line.get_color()))
    if line.get_marker() not in (None, 'None', '', ' '):
      pts += [(p, col) for p in xy]
    if line.get_linestyle() not in (None, 'None', '', ' ') and len(xy) > 1:
      polys.append((xy, col))
  return polys, pts, [(t.get_text(), t.get_position()) for t in ax.texts]


def same_color(a, b):
  return np.abs(np.asarray(a) - np.asarray(b)).max() < 3e-3


def cover(have, want, tol):
  """Every point of want is near a point of have."""
  if not len(want):
    return True
  if not len(have):
    return False
  d = np.abs(np.asarray(want)[:, None] - np.asarray(have)[None]).max(-1)
  return (d.min(1) <= tol).all()


def check_axes(ax, traj, highlighted, t, rg, tl, view, center, labels, paths=None,
               extra_text=()):
  polys, pts, texts = artists(ax)
  valid = traj['valid']
  n = valid.shape[0]
  geo = np.stack([traj[k] for k in ('x', 'y', 'length', 'width', 'yaw')], -1)
  scale = np.abs(geo[..., :2][valid]).max() if valid.any() else 1.0
  tol = TOL + 1e-6 * scale
  # --- boxes
  ov, sure, _ = c09.decide(geo[:, t][:, None], geo[:, t][None])
  both = valid[:, t][:, None] & valid[:, t][None] & ~np.eye(n, dtype=bool)
  hit, maybe = (ov & sure & both).any(1), (~sure & both).any(1)
  used = np.zeros(len(polys), bool)
  for i in range(n):
    if not valid[i, t]:
      continue
    x, y, l, w, yaw = geo[i, t].astype(float)
    box = ref.corners(x, y, l, w, yaw)
    u, v = np.array([np.cos(yaw), np.sin(yaw)]), np.array([-np.sin(yaw), np.cos(yaw)])
    c = np.array([x, y])
    arrow = np.array([c + u * l / 2, c + v * w / 2, c - v * w / 2])
    role = ROLE['controlled' if highlighted[i] else 'context']
    for name, shape in (('box', box), ('heading arrow', arrow)):
      m = [j for j, (xy, _) in enumerate(polys)
           if cover(xy, shape, tol) and cover(shape, xy, tol) and len(xy) == len(shape) + 1]
      require(m, name, 'of valid object', i, 'is not drawn at', geo[i, t].tolist())
      used[m] = True
      top = polys[m[-1]][1]
      if not maybe[i]:
        want = ROLE['overlap'] if hit[i] else role
        # Another object with the same outline may be drawn on top.
        if len([j for j in m if same_color(polys[j][1], role) or same_color(polys[j][1], RED)]) <= 2:
          require(same_color(top, want), name, 'of object', i, 'has colour', top, 'not', want,
                  '(overlapping)' if hit[i] else '')
        require(any(same_color(polys[j][1], role) for j in m), name, 'of object', i,
                'never has its role colour', role)
        if not hit[i]:
          require(not any(same_color(polys[j][1], RED) for j in m) or (geo[:, t] == geo[i, t]).all(1).sum() > 1,
                  'object', i, 'is drawn as overlapping')
  for j in np.flatnonzero(~used):
    # The only other shapes are small marks of future valid positions.
    xy, col = polys[j]
    mid = (xy.min(0) + xy.max(0)) / 2
    ok = False
    for i in range(n):
      for k in range(t + 1, valid.shape[1]):
        size = np.hypot(geo[i, k, 2], geo[i, k, 3])
        if (valid[i, k] and np.abs(mid - geo[i, k, :2]).max() <= 0.3 * size + tol
            and np.ptp(xy, 0).max() < 0.5 * size
            and same_color(col, ROLE['controlled' if highlighted[i] else 'context'])):
          ok = True
    require(ok, 'a shape with corners', xy.tolist(), 'in colour', col,
            'belongs to no valid object')
  # --- points
  want = []
  for i in range(n):
    want += [(geo[i, k, :2], ROLE['history']) for k in range(t) if valid[i, k]]
  for i in np.flatnonzero(rg['valid']):
    if int(rg['types'][i]) in SHOWN:
      want.append((np.array([rg['x'][i], rg['y'][i]]), np.array(ROAD[int(rg['types'][i])]) / 255))
  for i in np.flatnonzero(tl['valid'][:, t]):
    want.append((np.array([tl['x'][i, t], tl['y'][i, t]]), LIGHT[int(tl['state'][i, t])]))
  if paths is not None:
    for i in range(paths['x'].shape[0]):
      if not paths['valid'][i, 0]:
        continue
      col = (0, .75, .75) if paths['on_route'][i, 0] else (0, .5, 0)
      want += [(np.array([paths['x'][i, k], paths['y'][i, k]]), col)
               for k in np.flatnonzero(paths['valid'][i])]
  for p, col in want:
    require(any(same_color(col, c) and np.abs(p - q).max() <= tol for q, c in pts),
            'point', p, 'of colour', col, 'is not drawn')
  for q, c in pts:
    require(any(same_color(col, c) and np.abs(p - q).max() <= tol for p, col in want),
            'a point of colour', c, 'at', q, 'stands for nothing in the state')
  # --- labels
  exp = sorted([str(i) for i in range(n) if valid[i, t]] if labels else [])
  exp = sorted(exp + list(extra_text))
  require(sorted(s for s, _ in texts) == exp, 'labels', texts, 'expected', exp)
  if labels:
    for s, pos in texts:
      if s in extra_text:
        continue
      require(np.abs(np.asarray(pos, float) - geo[int(s), t, :2]).max() < 6, 'label', s, 'is at', pos)
  # --- view
  lim = [center[0] - view['back_x'], center[0] + view['front_x'],
         center[1] - view['back_y'], center[1] + view['front_y']]
  got = list(ax.get_xlim()) + list(ax.get_ylim())
  require(np.abs(np.array(got) - lim).max() <= 0.02, 'view', got, 'expected', lim)


def check_image(img, view):
  require(isinstance(img, np.ndarray) and img.dtype == np.uint8 and img.ndim == 3, 'image type')
  h = (view['front_y'] + view['back_y']) * view['px_per_meter']
  w = (view['front_x'] + view['back_x']) * view['px_per_meter']
  require(abs(img.shape[0] - h) <= 1 and abs(img.shape[1] - w) <= 1 and img.shape[2] == 3,
          'image shape', img.shape, 'expected', (h, w, 3))


def check_pixels(img, fig, ax, pos, size, color, what):
  """Some pixel near pos has the colour."""
  px, py = ax.transData.transform(np.asarray(pos, float))
  row, col = img.shape[0] - py, px
  scale = (img.shape[1] * 0.9) / np.ptp(ax.get_xlim())
  r = int(np.ceil(size * max(scale, (img.shape[0] * 0.9) / np.ptp(ax.get_ylim())))) + 3
  a = img[max(0, int(row) - r):int(row) + r + 1, max(0, int(col) - r):int(col) + r + 1]
  near = (np.abs(a.astype(int) - np.asarray(color) * 255) <= 70).all(-1)
  require(near.any(), what, 'has no pixel of colour', color, 'around', (row, col))


@st.composite
def scene(draw, nb=None):
  nb = draw(st.sampled_from([0, 0, 0, 2])) if nb is None else nb
  scs = []
  for _ in range(nb or 1):
    sc = draw(gens.scenario(N=N, T=T, P=P, L=L, K=2, M=4, sim='free',
                            mode=draw(st.sampled_from(['smooth', 'wild', 'wild']))))
    if draw(st.booleans()):  # crowded
      for part in ('log', 'sim'):
        for k in 'xy':
          sc[part][k] = sc[part][k] / np.float32(5)
    if draw(st.booleans()):
      for part in ('log', 'sim'):
        sc[part]['valid'][:] = True
    if draw(st.integers(0, 3)) == 0:  # the SDC far from everything else
      for part in ('log', 'sim'):
        sc[part]['x'][sc['md']['is_sdc']] += np.float32(300)
    scs.append(envs.shift_world(draw, sc))
  ts = [draw(st.integers(0, T - 1)) for _ in range(nb or 1)]
  return nb, scs, ts


@st.composite
def case(draw, nb=None):
  nb, scs, ts = draw(scene(nb))
  shared = draw(st.booleans())
  if shared:
    ts = [ts[0]] * len(ts)
  view = dict(draw(st.sampled_from(VIEWS)))
  view['show_agent_id'] = draw(st.booleans())
  view['center_agent_idx'] = draw(st.sampled_from([-1, -1, -1, 0, N - 1]))
  return dict(nb=nb, scs=scs, ts=ts, shared=shared, view=view,
              idx=draw(st.integers(0, max(nb, 1) - 1)), log=draw(st.booleans()),
              hl=draw(st.sampled_from(['SDC', 'MODELED', 'VALID'])),
              host=draw(st.booleans()), twice=draw(st.integers(0, 3)) == 0,
              default_view=draw(st.integers(0, 11)) == 0)


DEFAULT = dict(front_x=75.0, back_x=75.0, front_y=75.0, back_y=75.0, px_per_meter=4.0,
               show_agent_id=True, center_agent_idx=-1)


def build(c):
  """The (possibly batched) state, and numpy copies of its arrays."""
  import jax
  import jax.numpy as jnp
  if c['nb']:
    s = gens.to_state(gens.stack_cases(c['scs']), 0)
    s = s.replace(timestep=jnp.asarray(c['ts'][0] if c['shared'] else c['ts'], jnp.int32))
  else:
    s = gens.to_state(c['scs'][0], c['ts'][0])
  if c['host']:
    s = jax.tree_util.tree_map(np.array, s)
  return s


def highlight(md, hl):
  return md[{'SDC': 'is_sdc', 'MODELED': 'is_modeled', 'VALID': 'is_valid'}[hl]]


def render(c, draw_fn, state):
  """Runs draw_fn, returns (image, figure, axes); checks nothing is changed."""
  import jax
  from matplotlib import pyplot as plt
  before = jax.tree_util.tree_map(lambda x: np.array(x), state)
  open_figs = list(plt.get_fignums())
  with Capture() as cap:
    img = draw_fn()
  tree_eq(state, before, 'the rendered state was modified: ')
  require(list(plt.get_fignums()) == open_figs, 'figures are left open', plt.get_fignums())
  figs = [f for f in cap.figs if f.axes]
  require(len(figs) == 1 and len(figs[0].axes) == 1, 'figures drawn', len(figs))
  if c['twice']:
    eq(draw_fn(), img, 'second rendering of the same state')
  return img, figs[0], figs[0].axes[0]


def lonely(traj, t, i, rg, tl, paths=None):
  """Nothing else is drawn close to object i."""
  x, y = traj['x'][i, t], traj['y'][i, t]
  near = lambda d, m: (np.hypot(d['x'] - x, d['y'] - y) < 14)[m].any()
  others = traj['valid'].copy()
  others[i] = False
  return not (near(traj, others) or near(rg, rg['valid']) or near(tl, tl['valid']))


@R.law(case(), quick=170, name='simulator state')
def simulator_state(c):
  from waymax import config
  from waymax.visualization import viz
  state = build(c)
  view = DEFAULT if c['default_view'] else c['view']
  sc, t = c['scs'][c['idx']], c['ts'][c['idx']]
  kw = {} if c['default_view'] else dict(viz_config=dict(view))
  if c['nb']:
    kw['batch_idx'] = c['idx']
  img, fig, ax = render(c, lambda: viz.plot_simulator_state(
      state, use_log_traj=c['log'], highlight_obj=config.ObjectType[c['hl']], **kw), state)
  traj = sc['log' if c['log'] else 'sim']
  hl = highlight(sc['md'], c['hl'])
  who = view['center_agent_idx'] if view['center_agent_idx'] >= 0 else int(np.argmax(sc['md']['is_sdc']))
  center = (traj['x'][who, t], traj['y'][who, t])
  check_axes(ax, traj, hl, t, sc['rg'], sc['tl'], view, center, view['show_agent_id'])
  check_image(img, view)
  labels = [c['hl'], 'log' if c['log'] else 'sim'] if traj['valid'][:, t].any() else []
  if (traj['valid'][who, t] and not view['show_agent_id'] and traj['length'][who, t] > 2
      and traj['width'][who, t] > 1 and lonely(traj, t, who, sc['rg'], sc['tl'])):
    check_pixels(img, fig, ax, center, np.hypot(traj['length'][who, t], traj['width'][who, t]) / 2,
                 ROLE['controlled' if hl[who] else 'context'], f'object {who}')
    labels.append('pixels')
  return labels


FRAMES = ('GLOBAL', 'SDC', 'OBJECT')


@st.composite
def obs_case(draw):
  c = draw(case())
  c['frame'] = draw(st.sampled_from(FRAMES))
  c['sdc_obs'] = draw(st.booleans())
  c['obj'] = 0 if c['sdc_obs'] else draw(st.integers(0, N - 1))
  c['shared'] = True
  c['ts'] = [max(c['ts'][0], 2)] * len(c['ts'])
  c['default_view'] = False
  return c


@R.law(obs_case(), quick=110, name='observation')
def observation(c):
  import jax

  def make():
    from waymax import config, datatypes
    fr = config.CoordinateFrame[c['frame']]
    f = datatypes.sdc_observation_from_state if c['sdc_obs'] else datatypes.observation_from_state
    return jax.jit(lambda s: f(s, 3, P - 2, fr))
  f = envs.cached(('c30o', c['frame'], c['sdc_obs'], c['nb']), make)
  from waymax import config
  from waymax.visualization import viz
  c = dict(c, host=False)
  obs = f(build(c))
  kw = dict(viz_config=dict(c['view']))
  if c['nb']:
    kw['batch_idx'] = c['idx']
  img, fig, ax = render(c, lambda: viz.plot_observation(
      obs, c['obj'], highlight_obj=config.ObjectType[c['hl']], **kw), obs)
  o = jax.tree_util.tree_map(lambda x: np.asarray(x)[(c['idx'], c['obj']) if c['nb'] else c['obj']], obs)
  traj = gens.traj_np(o.trajectory)
  t = 2
  md = {k: np.asarray(getattr(o.metadata, k)) for k in ('is_sdc', 'is_modeled', 'is_valid')}
  rg = {k: np.asarray(getattr(o.roadgraph_static_points, k)) for k in ('x', 'y', 'types', 'valid')}
  tl = {k: np.asarray(getattr(o.traffic_lights, k)) for k in ('x', 'y', 'state', 'valid')}
  view = c['view']
  who = view['center_agent_idx'] if view['center_agent_idx'] >= 0 else int(np.argmax(md['is_sdc']))
  check_axes(ax, traj, highlight(md, c['hl']), t, rg, tl, view,
             (traj['x'][who, t], traj['y'][who, t]), view['show_agent_id'])
  check_image(img, view)
  return [c['frame']] if traj['valid'][:, t].any() else []


@st.composite
def brax_case(draw):
  c = draw(case())
  src = gens.Src(draw, 16)
  n = max(c['nb'], 1)
  c['metrics'] = {f'm{i}': dict(value=src.sym((n,), 9), valid=src.bits((n,), 150)) for i in range(2)}
  c['default_view'] = False
  c['host'] = False
  return c


@R.law(brax_case(), quick=80, name='Brax timestep')
def brax(c):
  import jax.numpy as jnp
  from waymax import metrics as M
  from waymax.env.wrappers import brax_wrapper
  from waymax.visualization import viz
  s = build(c)
  shape = (c['nb'],) if c['nb'] else ()
  pick = (lambda x: jnp.asarray(x)) if c['nb'] else (lambda x: jnp.asarray(x[0]))
  mets = {k: M.abstract_metric.MetricResult(value=pick(v['value']), valid=pick(v['valid']))
          for k, v in c['metrics'].items()}
  ts = brax_wrapper.TimeStep(state=s, observation=s, reward=jnp.zeros(shape),
                             done=jnp.zeros(shape, bool), discount=jnp.ones(shape), metrics=mets)
  kw = dict(viz_config=dict(c['view']))
  if c['nb']:
    kw['batch_idx'] = c['idx']
  img, fig, ax = render(c, lambda: viz.plot_single_agent_brax_timestep(ts, use_log_traj=c['log'], **kw), ts)
  sc, t = c['scs'][c['idx']], c['ts'][c['idx']]
  traj = sc['log' if c['log'] else 'sim']
  view = c['view']
  who = view['center_agent_idx'] if view['center_agent_idx'] >= 0 else int(np.argmax(sc['md']['is_sdc']))
  texts = [x.get_text() for x in ax.texts]
  extra = []
  for k, v in c['metrics'].items():
    mine = [x for x in texts if k in x]
    if v['valid'][c['idx']]:
      require(len(mine) == 1 and f"{v['value'][c['idx']]:.2f}" in mine[0], 'metric', k, 'shown as', mine)
      extra += mine
    else:
      require(not mine, 'invalid metric', k, 'is shown as', mine)
  check_axes(ax, traj, sc['md']['is_sdc'], t, sc['rg'], sc['tl'], view,
             (traj['x'][who, t], traj['y'][who, t]), view['show_agent_id'], sc['paths'], extra)
  check_image(img, view)
  return ['metrics'] if extra else ['frame']


@R.law(st.fixed_dictionaries(dict(c=case(nb=2), what=st.integers(0, 3))), quick=25, name='batch handling')
def batch_handling(d):
  from waymax.visualization import viz
  c = d['c']
  s = build(c)
  one = build(dict(c, nb=0))
  try:
    if d['what'] == 0:
      viz.plot_simulator_state(s)
    elif d['what'] == 1:
      viz.plot_simulator_state(one, batch_idx=1)
    elif d['what'] == 2:
      viz.plot_trajectory(None, s.log_trajectory, np.ones((2, N), bool), 0)
    else:
      viz.plot_roadgraph_points(None, s.roadgraph_points)
  except ValueError:
    return ['rejected']
  raise Violation('a state of the wrong batch rank was drawn')


@st.composite
def positions_case(draw):
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, mode='wild'))
  src = gens.Src(draw, N)
  return dict(sc=sc, mask=src.bits((N,)), t=draw(st.sampled_from([None, -1, 0, T - 1, T, T + 3])),
              ids=draw(st.booleans()))


@R.law(positions_case(), quick=60, name='plot_trajectory time index')
def positions(c):
  import jax.numpy as jnp
  from matplotlib import pyplot as plt
  from waymax.visualization import viz
  traj = gens.to_traj(c['sc']['log'])
  fig, ax = plt.subplots()
  try:
    t = c['t']
    ids = np.arange(N) if c['ids'] else None
    if t is not None and t >= T:
      try:
        viz.plot_trajectory(ax, traj, c['mask'], t, ids)
      except ValueError:
        return ['rejected']
      raise Violation(f'time index {t} of {T} steps accepted')
    viz.plot_trajectory(ax, traj, c['mask'], t, ids)
    polys, pts, texts = artists(ax)
    v = c['sc']['log']['valid']
    if t is None:  # no box anywhere: every closed shape is small
      for xy, _ in polys:
        require(np.ptp(xy, 0).max() < 1.3, 'a full box is drawn without a time index', xy)
      require(not texts, 'labels without a time index')
      want = np.stack([c['sc']['log'][k][v] for k in 'xy'], -1)
      have = np.asarray([q for q, _ in pts] + [(xy.min(0) + xy.max(0)) / 2 for xy, _ in polys]).reshape(-1, 2)
      require(cover(have, want, .5) and cover(want, have, .5), 'positions drawn without a time index')
      return ['no time index'] if v.any() else []
    t = T - 1 if t == -1 else t
    empty = dict(valid=np.zeros(0, bool), x=np.zeros(0), y=np.zeros(0), types=np.zeros(0))
    none = dict(valid=np.zeros((0, T), bool), x=np.zeros((0, T)), y=np.zeros((0, T)), state=np.zeros((0, T)))
    lim = list(ax.get_xlim()), list(ax.get_ylim())
    view = dict(back_x=-lim[0][0], front_x=lim[0][1], back_y=-lim[1][0], front_y=lim[1][1])
    check_axes(ax, c['sc']['log'], c['mask'], t, empty, none, view, (0, 0), c['ids'])
    return ['time index'] if v[:, t].any() else []
  finally:
    plt.close(fig)


@R.law(st.fixed_dictionaries(dict(h=st.integers(1, 9), w=st.integers(1, 9), data=st.binary(min_size=243, max_size=243),
                                  how=st.sampled_from(['new', 'nested', 'cwd', 'existing']))),
       quick=60, name='saving a frame')
def save(c):
  from PIL import Image
  from waymax.visualization import utils
  img = np.frombuffer(c['data'], np.uint8)[:c['h'] * c['w'] * 3].reshape(c['h'], c['w'], 3)
  with tempfile.TemporaryDirectory() as d:
    name = dict(new='f.png', nested='a/b/f.png', cwd='f.png', existing='f.png')[c['how']]
    path = os.path.join(d, name)
    if c['how'] == 'existing':
      Image.fromarray(img[::-1].copy()).save(path)
    if c['how'] == 'cwd':
      old = os.getcwd()
      os.chdir(d)
      try:
        utils.save_img_as_png(img, name)
      finally:
        os.chdir(old)
    else:
      utils.save_img_as_png(img, path)
    eq(np.asarray(Image.open(path)), img, 'saved frame')
  return [c['how']]


@R.law(st.fixed_dictionaries(dict(
    xy=st.tuples(st.integers(-999, 999), st.integers(-999, 999)), view=st.sampled_from(VIEWS),
    size=st.tuples(st.integers(80, 300), st.integers(80, 300)))), quick=30, name='axes of a given view')
def view(c):
  from waymax.visualization import utils
  import matplotlib.pyplot as plt
  x, y = c['xy']
  v = utils.VizConfig(**c['view'])
  fig, ax = utils.init_fig_ax(v)
  utils.center_at_xy(ax, np.asarray(c['xy'], np.float32), v)
  got = np.concatenate([ax.get_xlim(), ax.get_ylim()])
  want = [x - v.back_x, x + v.front_x, y - v.back_y, y + v.front_y]
  require(np.abs(got - want).max() < TOL, 'limits', got, 'expected', want)
  size = fig.get_size_inches() * fig.dpi
  want = np.asarray([v.front_x + v.back_x, v.front_y + v.back_y]) * v.px_per_meter
  plt.close(fig)
  require(np.abs(size - want).max() < 1, 'figure size', size, want)
  fig, _ = utils.init_fig_ax_via_size(*c['size'])
  img = utils.img_from_fig(fig)
  eq(img.shape, (c['size'][1], c['size'][0], 3), 'image size')
  require(not plt.get_fignums(), 'figure left open')
  return ['view']


@R.law(st.integers(1, 40).map(lambda n: dict(n=n)), quick=30, name='distinct colours')
def colours(c):
  from waymax.visualization import utils
  got = np.asarray(utils.get_n_colors(c['n']))
  require(got.shape == (c['n'], 3) and (got >= 0).all() and (got <= 1).all(), 'colours', got)
  require(len({tuple(np.round(x, 6)) for x in got}) == c['n'], 'colours repeat', got)
  return ['colours']
