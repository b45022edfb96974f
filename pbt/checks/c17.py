"""C17: run_metrics returns exactly the requested metrics; configs validated."""
import itertools
import numpy as np
from hypothesis import strategies as st
import envs
import gens
from checks import c16
from harness import Registry, Violation, close, eq, require, tree_close

R = Registry('C17', 'Stateful registration / lookup histories against a dict '
             'model; random subsets and orders of metrics against individually '
             'computed ones; random configuration values against the documented '
             'consistency rules. Non-trivial: a history with a registration and '
             'a run, a non-empty subset, or a configuration near its limit.',
             ['metric values themselves are decided by C09, C13, C14, C15'])
N = c16.N
_UID = itertools.count()


def expect_error(fn, what, kind=ValueError):
  try:
    fn()
  except kind:
    return
  raise Violation(f'{what}: accepted')


OPS = st.one_of(
    st.tuples(st.just('reg'), st.integers(0, 5), st.integers(1, 9)),
    st.tuples(st.just('reg'), st.integers(0, 5), st.integers(1, 9)),
    st.tuples(st.just('regbuiltin'), st.integers(0, 6)),
    st.tuples(st.just('run'), st.lists(st.integers(0, 6), max_size=5), st.just(True)),
    st.tuples(st.just('run'), st.lists(st.integers(0, 6), max_size=5), st.booleans()),
    st.tuples(st.just('names')))


@R.law(st.fixed_dictionaries(dict(ops=st.lists(OPS, min_size=1, max_size=14),
                                  via=st.sampled_from(['fn', 'base', 'base']))),
       quick=400, name='registry history')
def registry(c):
  import jax.numpy as jnp
  from waymax import config, env as E, metrics
  from waymax.metrics import abstract_metric as am
  uid = next(_UID)
  calls = []

  class Custom(am.AbstractMetric):

    def __init__(self, tag):
      self.tag = tag

    def compute(self, simulator_state):
      calls.append(self.tag)
      if self.tag[1] == 9:
        raise Violation('a metric that was not requested was computed')
      n = simulator_state.num_objects
      return am.MetricResult.create_and_validate(
          value=jnp.arange(n, dtype=jnp.float32) + 100.0 * self.tag[1],
          valid=jnp.arange(n) != self.tag[0])

  name = lambda i: f'law{uid}_metric{i}'
  builtin = list(c16.INDIV)
  state = _state()
  model, labels, base = {}, set(), set(metrics.get_metric_names())
  require(set(builtin) <= base, 'built-in metrics are missing', base)
  for op in c['ops']:
    if op[0] == 'reg':
      m = Custom((op[1], op[2]))
      if op[1] in model:
        expect_error(lambda: metrics.register_metric(name(op[1]), m), 'duplicate registration')
        labels.add('duplicate')
      else:
        metrics.register_metric(name(op[1]), m)
        model[op[1]] = op[2]
    elif op[0] == 'regbuiltin':
      expect_error(lambda: metrics.register_metric(builtin[op[1]], Custom((0, 1))),
                   'registration over a built-in metric')
    elif op[0] == 'names':
      require(set(metrics.get_metric_names()) == base | {name(i) for i in model},
              'get_metric_names', metrics.get_metric_names())
    else:
      # Tag 9 marks metrics that must never be asked for.
      ok = sorted(i for i in model if model[i] != 9)
      want = ([ok[i % len(ok)] for i in op[1] if ok] if op[2] else
              [i for i in op[1] if model.get(i) != 9])
      cfg = config.MetricsConfig(metrics_to_run=tuple(name(i) for i in want))
      del calls[:]
      if c['via'] == 'fn':
        run = lambda: metrics.run_metrics(state, cfg)
      else:
        run = lambda: E.BaseEnvironment(
            envs.DYNS['bicycle'].make(), envs.config(N=N, metrics=cfg)).metrics(state)
      if any(i not in model for i in want):
        expect_error(run, 'unknown metric')
        labels.add('unknown')
        continue
      out = run()
      require(set(out) == {name(i) for i in want}, 'keys', list(out), want)
      require({t[0] for t in calls} == set(want), 'computed metrics', calls, want)
      for i in want:
        eq(out[name(i)].value, np.arange(N, dtype=np.float32) + 100.0 * model[i], name(i))
        eq(out[name(i)].valid, np.arange(N) != i, name(i))
      if want:
        labels.add('run')
  return labels


def _state():
  def make():
    from waymax import datatypes
    import jax.numpy as jnp
    z = dict(log={}, md={})
    n, t = N, c16.T
    tr = {k: np.zeros((n, t), np.float32) for k in
          ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height')}
    tr['valid'] = np.ones((n, t), bool)
    tr['timestamp_micros'] = np.zeros((n, t), np.int32)
    md = dict(ids=np.arange(n, dtype=np.int32), object_types=np.ones(n, np.int32),
              **{k: np.zeros(n, bool) for k in ('is_sdc', 'is_modeled', 'is_valid',
                                                'objects_of_interest', 'is_controlled')})
    md['is_sdc'][0] = True
    rg = dict({k: np.zeros(4, np.float32) for k in ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z')},
              types=np.full(4, 15, np.int32), ids=np.zeros(4, np.int32), valid=np.zeros(4, bool))
    tl = dict({k: np.zeros((1, t), np.float32) for k in 'xyz'},
              state=np.zeros((1, t), np.int32), lane_ids=np.zeros((1, t), np.int32),
              valid=np.zeros((1, t), bool))
    return gens.to_state(dict(log=tr, sim=tr, md=md, rg=rg, tl=tl, paths=None, timestep=1))
  return envs.cached('c17state', make)


@st.composite
def subset(draw):
  c = draw(c16.scene(nb=draw(st.sampled_from([0, 0, 0, 2]))))
  c['names'] = draw(st.lists(st.sampled_from(c16.INDIV), max_size=4, unique=True))
  c['jit'] = draw(st.integers(0, 3)) == 0
  return c


@R.law(subset(), quick=50, name='built-in subset')
def builtin_subset(c):
  import jax
  from waymax import config, env as E, metrics
  s = gens.to_state(c['sc'], c['t'])
  cfg = config.MetricsConfig(metrics_to_run=tuple(c['names']))
  e = E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config(N=N, metrics=cfg))
  f = lambda s: (metrics.run_metrics(s, cfg), e.metrics(s))
  got, got2 = (jax.jit(f) if c['jit'] else f)(s)
  ind = c16.individually()(s)
  for g in (got, got2):
    require(set(g) == set(c['names']), 'keys', list(g), c['names'])
    for k in g:
      # jitted and eager float32 values may differ in rounding only.
      v, ok = ind[k]
      eq(g[k].valid, np.asarray(ok), f'{k} valid')
      both = np.asarray(ok)
      close(np.where(both, g[k].value, 0), np.where(both, v, 0), k, 1e-3, 1e-4)
      require(np.asarray(g[k].value).dtype == np.float32, k, 'dtype')
  return ['subset'] if c['names'] else []



# Names of registered metrics that need no route, whatever they sound like.
CUSTOM = ('sdc_jerk', 'sdc', 'wrongway', 'my_sdc_progression', 'sdc_off_route_2', 'route', 'SDC_WRONGWAY')
ROUTE = ('sdc_wrongway', 'sdc_off_route', 'sdc_progression')


def _register_custom():
  from waymax import metrics
  for n in CUSTOM:
    metrics.register_metric(n, metrics.LogDivergenceMetric())


@R.law(st.fixed_dictionaries(dict(
    init=st.integers(1, 30), hist=st.one_of(st.none(), st.integers(1, 40)),
    near=st.integers(-1, 1), use_near=st.booleans(),
    names=st.lists(st.sampled_from(c16.INDIV), max_size=5, unique=True),
    custom=st.lists(st.sampled_from(CUSTOM), max_size=2, unique=True),
    paths=st.booleans(), replace=st.booleans())), quick=600, name='configuration')
def configuration(c):
  import dataclasses
  from waymax import config as C
  hist = c['hist']
  if hist is not None and c['use_near']:
    hist = max(1, c['init'] + c['near'])
  labels = []
  obs = None if hist is None else C.ObservationConfig(num_steps=hist)
  bad = hist is not None and hist > c['init']
  envs.cached('c17custom', _register_custom)
  met = C.MetricsConfig(metrics_to_run=tuple(c['names']) + tuple(c['custom']))
  if c['replace']:
    base = C.EnvironmentConfig(metrics=met)
    build = lambda: dataclasses.replace(base, init_steps=c['init'], observation=obs)
  else:
    build = lambda: C.EnvironmentConfig(init_steps=c['init'], observation=obs, metrics=met)
  if hist is not None and abs(hist - c['init']) <= 1:
    labels.append('limit')
  if bad:
    expect_error(build, f'history {hist} > warm-up {c["init"]}')
    return labels
  ec = build()
  require(ec.init_steps == c['init'] and ec.observation == obs, 'config values')
  route = any(n in ROUTE for n in c['names'])
  dc = C.DatasetConfig(path='x', include_sdc_paths=c['paths'])
  top = lambda: C.WaymaxConfig(data_config=dc, env_config=ec)
  if route:
    labels.append('route')
  if route and not c['paths']:
    expect_error(top, f'route metrics {c["names"]} without paths')
    if c['replace']:
      ok = C.WaymaxConfig(data_config=dataclasses.replace(dc, include_sdc_paths=True), env_config=ec)
      expect_error(lambda: dataclasses.replace(ok, data_config=dc), 'replaced data config')
  else:
    t = top()
    require(t.data_config == dc and t.env_config == ec, 'config values')
    if c['custom']:
      labels.append('custom metric')
  return labels
