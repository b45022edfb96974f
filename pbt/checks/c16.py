"""C16: reward is the weighted sum of valid metric values of controlled agents."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from harness import Registry, close, eq, require, tree_eq, Violation

R = Registry('C16', 'Random scenes (overlaps, off-road objects, diverged and '
             'invalid objects), reward configurations, agent masks and control '
             'modes, single and batched; oracle: float64 weighted sum of the '
             'individually computed metric results. Non-trivial: the expected '
             'reward of some agent is not zero.',
             ['metric values themselves are decided by C09, C13, C14, C15'])
N, T = 3, 4
CONFIGS = [
    {'overlap': -1.0, 'offroad': -1.0}, {'log_divergence': 0.5}, {},
    {'kinematic_infeasibility': 2.0, 'overlap': -3.0, 'log_divergence': -0.25},
    {'offroad': 1.5, 'kinematic_infeasibility': -1.0},
    {'sdc_progression': 10.0, 'log_divergence': -1.0},
    {'sdc_off_route': -1.0, 'sdc_wrongway': -2.0, 'overlap': 0.5},
]
INDIV = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
         'sdc_wrongway', 'sdc_progression', 'sdc_off_route')


def metric_objs():
  from waymax import metrics as m
  from waymax.metrics import comfort
  return dict(log_divergence=m.LogDivergenceMetric(), overlap=m.OverlapMetric(),
              offroad=m.OffroadMetric(), sdc_wrongway=m.WrongWayMetric(),
              kinematic_infeasibility=comfort.KinematicsInfeasibilityMetric(),
              sdc_progression=m.ProgressionMetric(), sdc_off_route=m.OffRouteMetric())


def individually():
  """Jitted: every metric computed on its own."""
  def make():
    import jax
    objs = metric_objs()
    return jax.jit(lambda s: {k: (o.compute(s).value, o.compute(s).valid)
                              for k, o in objs.items()})
  return envs.cached('c16ind', make)


@st.composite
def scene(draw, nb=None):
  nb = draw(st.sampled_from([0, 0, 0, 3, 2])) if nb is None else nb
  t = draw(st.integers(1, T - 1))
  scs = []
  for _ in range(nb or 1):
    sc = draw(gens.scenario(N=N, T=T, P=6, L=1, K=2, M=3, sim='free'))
    src = gens.Src(draw, 40)
    how = src.u8(2)
    if how[0] % 2 == 0:  # overlapping pair
      i, j = (0, 1) if how[1] % 2 else (1, 2)
      for k in 'xy':
        sc['sim'][k][i, t] = sc['sim'][k][j, t] + src.sym((), 1.0)
    if how[1] % 3 == 0:
      sc['sim']['valid'][:, t] = True
      sc['sim']['valid'][:, t - 1] = True
    if how[1] % 4 == 0:  # SDC on its path
      sdc = int(np.argmax(sc['md']['is_sdc']))
      sc['paths']['on_route'][:] = True
      for k in 'xy':
        sc['sim'][k][sdc, t] = sc['paths'][k][0, 1] + src.sym((), 6.0)
    sc['timestep'] = t
    scs.append(sc)
  return dict(sc=gens.stack_cases(scs) if nb else scs[0], b=nb, t=t)


@st.composite
def case(draw, configs=len(CONFIGS)):
  c = draw(scene())
  c['cfg'] = draw(st.integers(0, configs - 1))
  src = gens.Src(draw, 4 * N * 3)
  shape = ((c['b'],) if c['b'] else ()) + (N,)
  c['mask'] = src.bits(shape, 190)
  c['float_mask'] = draw(st.booleans())
  c['act'] = src.sym(shape + (2,), .3)
  return c


def expected(ind, weights, mask):
  out = np.zeros(mask.shape)
  for k, w in weights.items():
    v, ok = (np.asarray(a) for a in ind[k])
    v = np.where(ok, v.astype(float), 0.0)
    if v.ndim < mask.ndim:
      v = v[..., None]
    out = out + w * v * mask
  return out


@R.law(case(), quick=300, name='LinearCombinationReward')
def linear(c):
  def make():
    import jax
    from waymax import config, rewards
    r = rewards.LinearCombinationReward(
        config.LinearCombinationRewardConfig(rewards=dict(CONFIGS[c['cfg']])))
    return jax.jit(r.compute)
  f = envs.cached(('c16', c['cfg']), make)
  s = gens.to_state(c['sc'], c['t'])
  mask = c['mask'].astype(np.float32) if c['float_mask'] else c['mask']
  act = envs.to_action(dict(data=c['act'], valid=np.ones(c['act'].shape[:-1] + (1,), bool)))
  got = np.asarray(f(s, act, mask))
  ind = individually()(s)
  exp = expected(ind, CONFIGS[c['cfg']], c['mask'])
  require(got.dtype == np.float32, 'reward dtype', got.dtype)
  close(got, exp, f'reward {CONFIGS[c["cfg"]]}', 1e-4 + 1e-5 * np.abs(exp))
  require((got[~c['mask']] == 0).all(), 'reward for an excluded agent', got)
  act2 = envs.to_action(dict(data=c['act'] + 1, valid=np.zeros(c['act'].shape[:-1] + (1,), bool)))
  eq(np.asarray(f(s, act2, mask)), got, 'the reward of a state depends on the action')
  return ['reward'] if (exp != 0).any() else []


@st.composite
def full_case(draw):
  sc = draw(gens.big(P=1000, K=10, M=80))
  n = sc['log']['x'].shape[0]
  src = gens.Src(draw, 16 * n)
  return dict(sc=sc, b=0, t=sc['timestep'], cfg=draw(st.integers(0, len(CONFIGS) - 1)),
              mask=src.bits(n, 190), float_mask=draw(st.booleans()), act=src.sym((n, 2), .3))


@R.law(full_case(), quick=40, name='full-size scenes', rule='128 objects, 91 steps')
def full_size(c):
  return linear(c)


@st.composite
def weights_case(draw):
  c = draw(scene(nb=0))
  names = draw(st.lists(st.sampled_from(INDIV), min_size=1, max_size=5, unique=True))
  c['w'] = {n: draw(st.sampled_from([0.0, 1.0, -1.0, 0.37, -25.0, 1e3])) for n in names}
  c['mask'] = gens.Src(draw, 4).bits((N,), 200)
  return c


@R.law(weights_case(), quick=25, name='random weights (eager)')
def weights(c):
  from waymax import config, rewards
  r = rewards.LinearCombinationReward(
      config.LinearCombinationRewardConfig(rewards=dict(c['w'])))
  s = gens.to_state(c['sc'], c['t'])
  act = envs.to_action(dict(data=np.zeros((N, 2), np.float32), valid=np.ones((N, 1), bool)))
  got = np.asarray(r.compute(s, act, c['mask']))
  exp = expected(individually()(s), c['w'], c['mask'])
  close(got, exp, f'reward {c["w"]}', 1e-4 + 1e-5 * sum(abs(w) for w in c['w'].values()), 1e-4)
  return ['reward'] if (exp != 0).any() else []


def user_metric():
  """Registers, once, a metric that returns what the state tells it to."""
  from waymax import metrics
  from waymax.metrics import abstract_metric
  name = 'verif_user_metric'
  if name not in metrics.get_metric_names():
    class User(abstract_metric.AbstractMetric):
      def compute(self, simulator_state):
        cur = simulator_state.current_sim_trajectory
        return abstract_metric.MetricResult.create_and_validate(cur.z[..., 0], cur.valid[..., 0])
    metrics.register_metric(name, User())
  return name


@R.law(case(), quick=60, name='registered metrics', rule='an invalid entry is not finite')
def registered(c):
  import jax
  from waymax import config, rewards
  name = user_metric()
  f = envs.cached('c16u', lambda: jax.jit(rewards.LinearCombinationReward(
      config.LinearCombinationRewardConfig(rewards={name: 1.5, 'log_divergence': -1.0})).compute))
  sc, t = c['sc'], c['t']
  cur = ref.at(sc['sim'], t)
  z = sc['sim']['z'].copy()
  bad = np.resize(np.array([np.nan, np.inf, -np.inf], np.float32), cur['z'].shape)
  z[..., t] = np.where(cur['valid'], cur['z'], bad)
  s = gens.to_state(dict(sc, sim=dict(sc['sim'], z=z)), t)
  act = envs.to_action(dict(data=c['act'], valid=np.ones(c['act'].shape[:-1] + (1,), bool)))
  got = np.asarray(f(s, act, c['mask']))
  div = individually()(gens.to_state(sc, t))['log_divergence']
  exp = c['mask'] * (1.5 * np.where(cur['valid'], cur['z'], 0).astype(float)
                     - np.where(np.asarray(div[1]), np.asarray(div[0]).astype(float), 0))
  close(got, exp, 'reward of a registered metric', 1e-4 + 1e-5 * np.abs(exp))
  return ['not finite'] if (~cur['valid'] & c['mask']).any() else []


@st.composite
def env_case(draw):
  c = draw(scene(nb=draw(st.sampled_from([0, 0, 2]))))
  c['ctrl'] = draw(st.sampled_from(envs.CTRLS))
  c['inj'] = draw(st.booleans())
  c['cfg'] = draw(st.sampled_from([0, 3]))
  c['on'] = draw(st.integers(0, 5)) > 0
  src = gens.Src(draw, 400)
  shape = ((c['b'],) if c['b'] else ()) + (N,)
  c['act'] = src.sym(shape + (2,), .3)
  c['act_valid'] = src.bits(shape + (1,), 190)
  return c


def env(c):
  def make():
    import jax
    from waymax import config, env as E
    e = E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config(
        c['ctrl'], c['inj'], 2, N, compute_reward=c['on'],
        rewards=config.LinearCombinationRewardConfig(rewards=dict(CONFIGS[c['cfg']]))))
    return e, jax.jit(e.reward)
  return envs.cached(('c16e', c['ctrl'], c['inj'], c['cfg'], c['on']), make)


@R.law(env_case(), quick=250, name='environment reward')
def env_reward(c):
  sc = c['sc']
  e, f = env(c)
  s = gens.to_state(sc, c['t'])
  act = envs.to_action(dict(data=c['act'], valid=c['act_valid']))
  got = np.asarray(f(s, act))
  require(got.dtype == np.float32 and got.shape == c['act'].shape[:-1], 'shape or dtype',
          got.shape, got.dtype)
  if not c['on']:
    require((got == 0).all(), 'rewards are disabled, got', got)
    return ['off']
  mask = ref.control_mask(sc, c['ctrl'], c['inj'], 2, sc['sim']['valid'])
  exp = expected(individually()(s), CONFIGS[c['cfg']], mask)
  close(got, exp, 'environment reward', 1e-4 + 1e-5 * np.abs(exp))
  spec = e.reward_spec()
  require(tuple(spec.shape) == (N,), 'reward_spec', spec)
  return ['reward'] if (exp != 0).any() else []


@R.law(st.fixed_dictionaries(dict(
    good=st.lists(st.sampled_from(INDIV), max_size=3, unique=True),
    bad=st.one_of(st.text(max_size=12), st.sampled_from(
        ['Overlap', 'overlaps', 'sdc_offroute', ' offroad', 'log-divergence'])),
    weights=st.lists(st.sampled_from([1.0, 0.0, -2.5, 1e-30]), min_size=4, max_size=4),
    use=st.booleans(), first=st.booleans())), quick=150, name='unknown names')
def unknown(c):
  from waymax import config, env as E, rewards
  names = list(c['good'])
  if c['use'] and c['bad'] not in INDIV:
    names.insert(0 if c['first'] else len(names), c['bad'])
  cfg = config.LinearCombinationRewardConfig(rewards=dict(zip(names, c['weights'])))
  bad = any(n not in INDIV for n in names)
  for build in (lambda: rewards.LinearCombinationReward(cfg),
                lambda: E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config(rewards=cfg)),
                lambda: E.PlanningAgentEnvironment(envs.DYNS['bicycle'].make(), envs.config(rewards=cfg))):
    try:
      build()
    except ValueError:
      require(bad, 'known metric names rejected', names)
    else:
      require(not bad, 'unknown metric name accepted', names)
  return ['rejected' if bad else 'accepted']


def make_own():
  """Rewards of states that are each at their own timestep."""
  from waymax import config as C, datatypes, env as E, metrics as M
  w = {'log_divergence': -0.1, 'kinematic_infeasibility': 2.0, 'overlap': -3.0, 'offroad': -1.5}
  e = E.BaseEnvironment(envs.DYNS['bicycle'].make(), envs.config(
      'MODELED', True, 2, batching.N, rewards=C.LinearCombinationRewardConfig(rewards=w)))

  def f(s, a):
    act = datatypes.Action(data=a['data'], valid=a['valid'])
    return dict(now=e.reward(s, act), next=e.reward(e.step(s, act), act))
  return f


batching.own_timesteps(R, make_own, 2)
