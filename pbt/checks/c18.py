"""C18: the planning environment is the multi-agent one seen from the SDC."""
import numpy as np
from hypothesis import strategies as st
import batching
import envs
import gens
import ref
from checks import c09, c16
from harness import Registry, Violation, close, eq, require, tree_close, tree_eq

R = Registry('C18', 'Random scenes, SDC actions and 0-3 table-driven sim agents '
             '(random masks, actions, order) or the shipped agents; oracles: a '
             'float64 step model with last-agent-wins merging and the initial '
             'overlap exclusion, and the multi-agent environment driven with the '
             'same SDC action. Non-trivial: an agent takes over an object, or '
             'the SDC is driven.',
             ['sim agents return valid actions', 'objects whose initial overlap '
              'is within float32 error of contact, or involves an object that is '
              'invalid at the first timestep, are not judged',
              'sim agents are not asked to control the SDC'])
N, T = 4, 6
DYN = ('bicycle', 'delta_global', 'delta_local', 'state')
METRICS = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
           'sdc_wrongway', 'sdc_progression', 'sdc_off_route')


def table_agent(i):
  """Actor whose mask and next pose come from its parameters; counts its calls."""
  from waymax import datatypes
  from waymax.agents import actor_core

  def init(rng, state):
    return dict(n=state.timestep * 0 + 100 * i, key=_key_data(rng))

  def select(params, state, actor_state, rng):
    return actor_core.WaymaxActorOutput(
        actor_state=dict(n=actor_state['n'] + params['inc'], key=_key_data(rng)),
        action=datatypes.Action(data=params['data'], valid=params['valid']),
        is_controlled=params['mask'])
  return actor_core.actor_core_factory(init, select, f'table{i}')


def _key_data(rng):
  import jax.numpy as jnp
  return jnp.zeros(2, jnp.uint32) if rng is None else jnp.asarray(rng, jnp.uint32)


def config(inj, init, **kw):
  return envs.config('SDC', inj, init, N, **kw)


def initial_overlap(log):
  """(overlapping, decided) per object at the first logged timestep."""
  b = np.stack([log[k][..., 0] for k in ('x', 'y', 'length', 'width', 'yaw')], -1)
  v = log['valid'][..., 0]
  n = b.shape[-2]
  ov, sure, _ = c09.decide(b[:, None], b[None])
  off = ~np.eye(n, dtype=bool)
  both = v[:, None] & v[None]
  real = (ov & sure & off & both).any(-1)
  maybe = (off & (~sure | (ov & ~both))).any(-1)
  return real, real | ~maybe


@st.composite
def case(draw):
  sc = draw(gens.scenario(N=N, T=T, P=2, L=1, sim='free'))
  t = draw(st.integers(0, T - 2))
  kind = draw(st.sampled_from(DYN))
  src = gens.Src(draw, 200 * 2)
  if src.u8(1)[0] % 2 == 0:
    sc['log']['valid'][:, 0] = True
    sc['sim']['valid'][:, t] = True
  if src.u8(1)[0] % 2 == 0:   # spread objects out at the start
    sc['log']['x'][:, 0] += np.arange(N, dtype=np.float32) * 70
  elif src.u8(1)[0] % 2 == 0:  # put two on top of each other
    i, j = int(src.u8(1)[0] % N), int(src.u8(1)[0] % N)
    sc['log']['x'][i, 0] = sc['log']['x'][j, 0] + src.sym((), .4)
    sc['log']['y'][i, 0] = sc['log']['y'][j, 0]
  d = envs.DYNS[kind]
  act = draw(envs.actions(d.dim, (), lim=d.spec))
  act['valid'][:] = True
  k = draw(st.integers(0, 3))
  sdc = sc['md']['is_sdc']
  agents = []
  for _ in range(k):
    mask = src.bits((N,), 150) & ~sdc
    agents.append(dict(data=src.sym((N, 5), 20.0), mask=mask,
                       valid=np.ones((N, 1), bool),
                       inc=int(src.u8(1)[0] % 5)))
  sc['timestep'] = t
  return dict(sc=sc, t=t, kind=kind, act=act, agents=agents, inj=draw(st.booleans()),
              init=2, key=draw(st.integers(0, 2**20)), use_key=draw(st.booleans()))


def stepper(c):
  k = len(c['agents'])

  def make():
    import jax
    from waymax import env as E
    actors = [table_agent(i) for i in range(k)]
    dyn = envs.DYNS[c['kind']].make()
    cfg = config(c['inj'], c['init'])

    def f(state, actor_states, action, params, key):
      e = E.PlanningAgentEnvironment(dyn, cfg, actors, params)
      s = E.PlanningAgentSimulatorState(**state).replace(sim_agent_actor_states=actor_states)
      return e.step(s, action, key)
    return jax.jit(f)
  return envs.cached(('c18', k, c['kind'], c['inj'], c['init'], c['use_key']), make)


@R.law(case(), quick=350, name='step model')
def step_model(c):
  import jax
  import jax.numpy as jnp
  sc, t = c['sc'], c['t']
  state = gens.to_state(sc, t)
  key = jax.random.PRNGKey(c['key']) if c['use_key'] else None
  ast = [dict(n=jnp.asarray(7 * i, jnp.int32), key=jnp.zeros(2, jnp.uint32))
         for i in range(len(c['agents']))]
  params = [{k: jnp.asarray(v) for k, v in a.items()} for a in c['agents']]
  out = stepper(c)(state, ast, envs.to_action(c['act']), params, key)
  # Actor states in order, one call each, one key each.
  require(len(out.sim_agent_actor_states) == len(ast), 'number of actor states')
  keys = jax.random.split(key, len(ast)) if c['use_key'] and ast else None
  for i, (a, s) in enumerate(zip(c['agents'], out.sim_agent_actor_states)):
    require(int(s['n']) == 7 * i + a['inc'], 'actor state', i, int(s['n']))
    if keys is not None:
      got = np.asarray(s['key'])
      for j in range(i):
        require((got != np.asarray(out.sim_agent_actor_states[j]['key'])).any(),
                'sim agents', i, j, 'share a random key')
  require(int(out.timestep) == t + 1, 'timestep', out.timestep)
  tree_eq(out.log_trajectory, state.log_trajectory, 'log')
  sdc = sc['md']['is_sdc']
  overlap, sure = initial_overlap(sc['log'])
  d = envs.DYNS[c['kind']]
  cur = ref.at(sc['sim'], t)
  full = np.broadcast_to(c['act']['data'], (N, d.dim))
  want, tol = d.update(cur, full), d.tol(cur, full)
  got = gens.traj_np(out.sim_trajectory)
  for k in got:
    keep = np.arange(T) != t + 1
    eq(got[k][:, keep], sc['sim'][k][:, keep], f'{k} at other timesteps')
  labels = set()
  for i in range(N):
    ctrl, last = bool(sdc[i]), None
    for a in c['agents']:
      if a['mask'][i] and not overlap[i]:
        last, ctrl = a, True
    taken = any(a['mask'][i] for a in c['agents'])
    if taken and not sure[i]:
      continue
    if taken:
      labels.add('excluded' if last is None else 'agent')
    for j, f in enumerate(ref.FIELDS):
      g = got[f][i, t + 1]
      if last is not None:
        eq(g, last['data'][i, j], f'{f} of object {i}: not the last agent in control')
      elif sdc[i] and cur['valid'][i]:
        labels.add('sdc')
        if f == 'yaw':
          require(ref.angdiff(g, want[f][i]) <= tol[f][i], 'sdc yaw', g, want[f][i])
        else:
          close(g, want[f][i], f'sdc {f}', atol=tol[f][i])
      elif not sdc[i]:
        eq(g, sc['log'][f][i, t + 1], f'{f} of uncontrolled object {i}')
    exp = ref.next_valid(cur['valid'][i], sc['log']['valid'][i, t + 1], ctrl, c['inj'])
    require(bool(got['valid'][i, t + 1]) == bool(exp), 'validity of object', i,
            'is', got['valid'][i, t + 1])
  return labels


@st.composite
def episode(draw):
  # No lattice: the two programs may round exact contacts differently.
  sc = draw(gens.scenario(N=N, T=T, P=6, L=1, K=2, M=3,
                          mode=draw(st.sampled_from(['smooth', 'wild']))))
  if draw(st.booleans()):
    i = int(np.argmax(sc['md']['is_sdc']))
    sc['log']['valid'][i] = True
  kind = draw(st.sampled_from(DYN))
  d = envs.DYNS[kind]
  acts = []
  for _ in range(T - 2):
    a = draw(envs.actions(d.dim, (), lim=d.spec))
    a['valid'][:] = True
    acts.append(a)
  return dict(sc=sc, kind=kind, acts=acts, inj=draw(st.booleans()),
              w=DYN.index(kind) % 2, n=draw(st.integers(1, T - 2)))


WEIGHTS = ({'overlap': -1.0, 'offroad': -2.0, 'log_divergence': 0.5},
           {'sdc_progression': 1.0, 'kinematic_infeasibility': -3.0})


def pair(c):
  def make():
    import jax
    from waymax import config as C, env as E
    kw = dict(metrics=C.MetricsConfig(metrics_to_run=METRICS),
              rewards=C.LinearCombinationRewardConfig(rewards=dict(WEIGHTS[c['w']])))
    dyn = envs.DYNS[c['kind']].make()
    p = E.PlanningAgentEnvironment(dyn, config(c['inj'], 2, **kw))
    b = E.BaseEnvironment(dyn, config(c['inj'], 2, **kw))

    def fp(s, a):
      return p.metrics(s), p.reward(s, a), p.step(s, a), p.truncation(s), p.termination(s)

    def fb(s, a):
      return b.metrics(s), b.reward(s, a), b.step(s, a), b.truncation(s), b.termination(s)
    return p, b, jax.jit(fp), jax.jit(fb), jax.jit(p.reset), jax.jit(b.reset)
  return envs.cached(('c18p', c['kind'], c['inj'], c['w']), make)


def clear(s, sdc):
  """The SDC is not within float32 error of contact with another box."""
  t = gens.traj_np(s.sim_trajectory)
  b = np.stack([t[k][:, int(s.timestep)] for k in ('x', 'y', 'length', 'width', 'yaw')], -1)
  _, sure, _ = c09.decide(b[sdc][None], b)
  return sure[np.arange(N) != sdc].all()


@R.law(episode(), quick=60, name='multi-agent differential')
def differential(c):
  p, b, fp, fb, rp, rb = pair(c)
  st0 = gens.to_state(c['sc'])
  sp, sb = rp(st0), rb(st0)
  sdc = int(np.argmax(c['sc']['md']['is_sdc']))
  labels = set()
  for i in range(c['n']):
    for f in ('sim_trajectory', 'log_trajectory', 'object_metadata', 'timestep',
              'roadgraph_points', 'log_traffic_light', 'sdc_paths'):
      # Two compiled programs may differ in float32 rounding.
      tree_close(getattr(sp, f), getattr(sb, f), f'step {i}: {f} ', 1e-3, 1e-5)
    sb = sb.replace(sim_trajectory=sp.sim_trajectory)
    tree_eq(p.observe(sp), sp, 'default observation is not the state')
    act = c['acts'][i]
    a = envs.to_action(act)
    multi = dict(data=np.broadcast_to(act['data'], (N,) + act['data'].shape),
                 valid=np.ones((N, 1), bool))
    # Actions of the other objects must not matter.
    data = np.array(multi['data'])
    data[np.arange(N) != sdc] += 1.0
    multi['data'] = data
    mp, rwp, nsp, trp, tep = fp(sp, a)
    mb, rwb, nsb, trb, teb = fb(sb, envs.to_action(multi))
    require(np.asarray(rwp).shape == () and np.asarray(rwp).dtype == np.float32,
            'reward shape', np.asarray(rwp).shape)
    close(rwp, np.asarray(rwb)[sdc], f'step {i}: reward', 1e-4, 1e-5)
    require(set(mp) == set(mb) == set(METRICS), 'metric names', list(mp))
    for k in METRICS:
      v, ok = np.asarray(mp[k].value), np.asarray(mp[k].valid)
      require(v.shape == () and ok.shape == (), k, 'shape', v.shape, ok.shape)
      ev, eok = np.asarray(mb[k].value), np.asarray(mb[k].valid)
      if ev.ndim:
        ev, eok = ev[sdc], eok[sdc]
      if k == 'kinematic_infeasibility' and i == 0:
        require(not ok and v == 0, 'kinematic infeasibility of the warm-up transition is reported', v, ok)
        continue
      require(bool(ok) == bool(eok), f'step {i}: {k} valid', ok, eok)
      if k == 'overlap' and not clear(sp, sdc):
        continue
      if ok:
        close(v, ev, f'step {i}: {k}', 1e-3, 1e-4)
        labels.add(k)
    require(bool(trp) == bool(trb) and not tep and not teb, 'flags')
    sp, sb = nsp, nsb
  return labels


@st.composite
def agents_case(draw):
  c = draw(case())
  c['which'] = draw(st.sampled_from(['idm', 'const', 'frozen', 'idm+const', 'const+idm']))
  c['agents'] = []
  return c


def shipped(which):
  from waymax import agents
  out = []
  for w in which.split('+'):
    if w == 'idm':
      out.append(agents.IDMRoutePolicy())
    elif w == 'const':
      from waymax.agents import constant_speed
      out.append(constant_speed.ConstantSpeedPolicy(speed=5.0))
    else:
      out.append(agents.FrozenSimPolicy(lambda s: s.object_metadata.is_modeled & ~s.object_metadata.is_sdc))
  return out


@R.law(agents_case(), quick=60, name='shipped agents')
def shipped_agents(c):
  import jax

  def make():
    from waymax import env as E
    ag = shipped(c['which'])
    e = E.PlanningAgentEnvironment(envs.DYNS['state'].make(), config(c['inj'], 2), ag, [{}] * len(ag))

    def f(s, a):
      s = E.PlanningAgentSimulatorState(**s).replace(sim_agent_actor_states=[None] * len(ag))
      return e.step(s, a), [x.select_action({}, s, None, None) for x in ag]
    return jax.jit(f)
  f = envs.cached(('c18s', c['which'], c['inj']), make)
  sc, t = c['sc'], c['t']
  act = dict(data=np.asarray(np.resize(c['act']['data'], 5), np.float32), valid=np.ones(1, bool))
  out, outs = f(gens.to_state(sc, t), envs.to_action(act))
  overlap, sure = initial_overlap(sc['log'])
  got = gens.traj_np(out.sim_trajectory)
  sdc = sc['md']['is_sdc']
  labels = set()
  for i in range(N):
    if not sure[i] or sdc[i]:
      continue
    data = np.stack([sc['log'][k][i, t + 1] for k in ref.FIELDS])
    ok = True
    for o in outs:
      if np.asarray(o.is_controlled)[i] and not overlap[i]:
        data = np.asarray(o.action.data)[i]
        ok = bool(np.asarray(o.action.valid)[i, 0])
        if ok:
          labels.add(c['which'])
    if ok:
      close([got[k][i, t + 1] for k in ref.FIELDS], data, f'object {i}', 1e-5, 1e-5)
  return labels


@R.law(st.fixed_dictionaries(dict(
    ctrl=st.sampled_from(['SDC', 'SDC', 'SDC', 'MODELED', 'VALID', 'NON_SDC']),
    na=st.integers(1, 2), np=st.integers(1, 2), ns=st.integers(0, 3),
    key=st.one_of(st.none(), st.integers(0, 1000)),
    sc=gens.scenario(N=N, T=T, P=2, L=1))), quick=60, name='construction and reset')
def construction(c):
  import jax
  from waymax import env as E
  actors = [table_agent(i) for i in range(c['na'])]
  bad = c['ctrl'] != 'SDC' or c['na'] != c['np']
  mk = lambda: E.PlanningAgentEnvironment(
      envs.DYNS['bicycle'].make(), envs.config(c['ctrl'], True, 2, N), actors, [{}] * c['np'])
  if bad:
    try:
      mk()
    except ValueError:
      return ['rejected']
    raise Violation(f"accepted controlled_object {c['ctrl']}, {c['na']} actors, {c['np']} params")
  e = mk()
  key = None if c['key'] is None else jax.random.PRNGKey(c['key'])
  s = e.reset(gens.to_state(c['sc']), key)
  require([int(a['n']) for a in s.sim_agent_actor_states] == [100 * i for i in range(c['na'])],
          'initial actor states', s.sim_agent_actor_states)
  if key is not None:
    ks = {tuple(np.asarray(a['key']).tolist()) for a in s.sim_agent_actor_states}
    require(len(ks) == c['na'], 'sim agents share an initial random key')
  spec = e.action_spec()
  require(tuple(spec.data.shape) == (2,) and tuple(spec.valid.shape) == (1,), 'action spec')
  require(tuple(e.reward_spec().shape) == (), 'reward spec')
  if c['ns'] != c['na']:
    s2 = s.replace(sim_agent_actor_states=[None] * c['ns'])
    act = envs.to_action(dict(data=np.zeros(2, np.float32), valid=np.ones(1, bool)))
    try:
      e.step(s2, act)
    except ValueError:
      return ['state count']
    raise Violation(f"{c['ns']} actor states accepted for {c['na']} agents")
  return ['ok']


@st.composite
def inv_case(draw):
  c = draw(case())
  c['sdc_fwd'] = draw(st.booleans())
  return c


@R.law(inv_case(), quick=120, name='PlanningAgentDynamics inverse')
def inverse(c):
  """The SDC entry of the wrapped model's inverse."""
  import jax

  def make():
    from waymax.env import planning_agent_environment as pe
    d = envs.DYNS[c['kind']].make()
    p = pe.PlanningAgentDynamics(d)

    def f(s, t, a, ctrl):
      return (p.inverse(s.sim_trajectory, s.object_metadata, t),
              d.inverse(s.sim_trajectory, s.object_metadata, t),
              p.forward(a, s.sim_trajectory, s.log_trajectory, ctrl, t, c['inj']),
              p.compute_update(a, s.current_sim_trajectory))
    return jax.jit(f)
  f = envs.cached(('c18i', c['kind'], c['inj']), make)
  sc, t = c['sc'], c['t']
  sdc = sc['md']['is_sdc']
  i = int(np.argmax(sdc))
  pi, di, fw, up = f(gens.to_state(sc, t), t, envs.to_action(c['act']), sdc)
  close(pi.data, np.asarray(di.data)[i], 'inverse data', 1e-6)
  eq(pi.valid, np.asarray(di.valid)[i], 'inverse valid')
  d = envs.DYNS[c['kind']]
  cur = ref.at(sc['sim'], t)
  full = np.broadcast_to(c['act']['data'], (N, d.dim))
  want, tol = d.update(cur, full), d.tol(cur, full)
  for k in ref.FIELDS:
    # Every object is updated as if it were given the single action.
    u = np.asarray(getattr(up, k))[:, 0]
    g = np.asarray(getattr(fw, k))[:, t + 1]
    err = ref.angdiff if k == 'yaw' else (lambda a, b: np.abs(a - b))
    v = cur['valid']
    require((err(u, want[k])[v] <= (tol[k] + 1e-6 * np.abs(want[k]))[v]).all(), 'compute_update', k)
    if v[i]:
      require(err(g[i], want[k][i]) <= tol[k][i] + 1e-6 * abs(want[k][i]), 'forward', k, g[i], want[k][i])
    eq(g[~sdc], sc['log'][k][:, t + 1][~sdc], f'forward {k} of uncontrolled')
  eq(np.asarray(fw.valid)[:, t + 1], ref.next_valid(cur['valid'], sc['log']['valid'][:, t + 1], sdc, c['inj']),
     'forward validity')
  return [c['kind']] if cur['valid'][i] else []


def make_own():
  """Steps of the planning environment from states at their own timesteps."""
  from waymax import config as C, datatypes, env as E
  ag = shipped('idm+const')
  e = E.PlanningAgentEnvironment(
      envs.DYNS['bicycle'].make(), envs.config(
          'SDC', True, 2, batching.N,
          metrics=C.MetricsConfig(metrics_to_run=('log_divergence', 'kinematic_infeasibility', 'overlap')),
          rewards=C.LinearCombinationRewardConfig(rewards={'log_divergence': 1.0, 'overlap': -1.0})),
      ag, [{}] * len(ag))

  def f(s, a):
    act = datatypes.Action(data=a['data'], valid=a['valid'])
    s = E.PlanningAgentSimulatorState(**s).replace(sim_agent_actor_states=e.reset(s).sim_agent_actor_states)
    nxt = e.step(s, act)
    return dict(next=nxt, reward=e.reward(nxt, act), observe=e.observe(nxt),
                metrics={k: (v.masked_value(), v.valid) for k, v in e.metrics(nxt).items()})
  return f


batching.own_timesteps(R, make_own, 2, multi=False)
