"""E01: seeded flights are reproducible bit for bit."""
import random

from sim import clock
from sim import core
from sim import flight

ROUTES = ('ctor', 'reset', 'seed')
NOISE = ('np_seed', 'np_draw', 'py_draw', 'clock', 'render', 'other_env',
         'read', 'gc', 'globals', 'order')


class E01(core.Prop):
  id = 'E01'
  title = 'Seeded flights are reproducible bit for bit'
  rule = ('seeded schedules that interleave several environments, seeded '
          'agents and disturbances (clock jumps, global random state, '
          'rendering, other environments), each seeded stretch then replayed '
          'alone in a new object, in a used object and with earlier episodes '
          'cut short; compared bit for bit; non-trivial: at least two '
          'replays of 5 steps')
  technique = ('seeded interleaving of environments and disturbances, every '
               'stretch replayed solo and across processes')
  cross_process = True
  runs = {'quick': 96, 'thorough': 3000}
  real = ['BalloonEnv, BalloonArena, balloon, wind noise, fields, features, '
          'WindGP, RandomWalkAgent, MLPAgent, MarcoPoloExploration, '
          'MatplotlibRenderer']
  stub = ['wind decoder weights']
  assumptions = ['seeds that differ by a multiple of 2**32 are the same seed '
                 'for JAX and are not compared as different ones']

  def setup(self):
    flight.Lib.load()
    from balloon_learning_environment.agents import marco_polo_exploration
    from balloon_learning_environment.agents import mlp_agent
    from balloon_learning_environment.agents import random_walk_agent
    self.mp, self.mlp = marco_polo_exploration, mlp_agent
    self.rw = random_walk_agent
    import gin
    gin.bind_parameter('MLPNetwork.num_layers', 2)
    gin.bind_parameter('MLPNetwork.hidden_units', 8)

  # -- plans ---------------------------------------------------------------

  def draw_seed(self, rng):
    return rng.choice([0, 1, 2, 42, 2**31 - 1, rng.randrange(2**31),
                       rng.randrange(2**31), rng.randrange(2**31)])

  def generate(self, rng, tier):
    envs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
      c = flight.draw_cfg(rng, 'env', ('simple', 'grid', 'storm', 'decoder'))
      if rng.random() < 0.9 and c['field'] == 'decoder':
        c['field'] = 'grid'
      agent = rng.choice([None, None, None, 'walk', 'mlp', 'marco'])
      real = agent in ('walk', 'marco') or rng.random() < 0.25
      envs.append({'field': c['field'], 'speed': c['speed'],
                   'power_safety': True,
                   'features': 'real' if real else 'stub',
                   'renderer': rng.random() < 0.15, 'agent': agent,
                   'agent_seed': rng.randrange(2**31)})
    ops = []
    for i in range(len(envs)):
      ops.append(['seed', i, rng.choice(ROUTES), self.draw_seed(rng)])
    left = rng.randint(20, 70 if tier == 'quick' else 260)
    while left > 0:
      r = rng.random()
      i = rng.randrange(len(envs))
      if r < 0.10:
        ops.append(['seed', i, rng.choice(ROUTES), self.draw_seed(rng)])
      elif r < 0.22:
        ops.append(['reset', i])
      elif r < 0.50:
        ops.append(['noise', rng.choice(NOISE), i, rng.randrange(2**31)])
      k = min(left, rng.choice([1, 1, 2, 3, 5, 9, 20]))
      if envs[i]['agent'] and rng.random() < 0.7:
        ops.append(['fly', i, k])
      else:
        ops.append(['act', i, flight.draw_actions(rng, k)])
      left -= k
    return {'cfg': {'envs': envs, 'replays': rng.randrange(2**31)}, 'ops': ops}

  # -- real objects --------------------------------------------------------

  def make_env(self, c, seed):
    from sim import fields
    L = flight.Lib
    kw = {}
    if c['features'] == 'stub':
      kw['feature_constructor_factory'] = flight.plain_features()
    if c['renderer']:
      from balloon_learning_environment.env.rendering import matplotlib_renderer
      kw['renderer'] = matplotlib_renderer.MatplotlibRenderer()
    return L.balloon_env.BalloonEnv(
        wind_field_factory=lambda: fields.make(c['field'], c['speed']),
        seed=seed, **kw)

  def seeded(self, c, env, route, seed):
    """An environment seeded in one of the documented ways, and its obs."""
    if route == 'ctor' or env is None:
      env = self.make_env(c, seed if route == 'ctor' else seed + 17)
      if route == 'ctor':
        # The constructor resets; this is what the first episode looks like.
        obs = env.arena.feature_constructor.get_features()
        return env, obs
    if route == 'seed':
      env.seed(seed)
      return env, env.reset()
    return env, env.reset(seed=seed)

  def make_agent(self, c):
    obs = (1099,) if c['features'] != 'stub' else (4,)
    if c['agent'] == 'walk':
      return self.rw.RandomWalkAgent(3, obs, seed=c['agent_seed'])
    if c['agent'] == 'mlp':
      return self.mlp.MLPAgent(3, obs, seed=c['agent_seed'])
    if c['agent'] == 'marco':
      return Marco(self.mp.MarcoPoloExploration(
          3, obs, 0.7,
          lambda n, o: self.rw.RandomWalkAgent(n, o, seed=c['agent_seed'] + 1),
          seed=c['agent_seed']))
    return None

  def snapshot(self, env, obs, reward, terminal, info):
    """Everything one step tells the outside world, hashable exactly."""
    L = flight.Lib
    s = env.get_simulator_state()
    b = s.balloon_state
    u = L.units
    w = s.wind_field
    t = b.time_elapsed
    winds = []
    for p in (7000.0, float(b.pressure)):
      g = w.get_ground_truth(b.x, b.y, p, t)
      f = w.get_forecast(b.x, b.y, p, t)
      winds += [float(g.u.meters_per_second), float(g.v.meters_per_second),
                float(f.u.meters_per_second), float(f.v.meters_per_second)]
    heights = [float(s.atmosphere.at_pressure(p).height.meters)
               for p in (6000.0, 9000.0)]
    return {'obs': obs.tobytes(), 'reward': reward, 'terminal': terminal,
            'info': None if info is None else sorted(
                (k, str(v)) for k, v in info.items()),
            'state': flight.numbers(b), 'winds': winds, 'heights': heights}

  def noise(self, ctx, run, op):
    """Something else happens in the process."""
    np = flight.Lib.np
    _, kind, i, seed = op
    r = core.prng('noise', seed)
    ctx.fault('noise:' + kind)
    if kind == 'np_seed':
      np.random.seed(seed % 2**32)
    elif kind == 'np_draw':
      np.random.uniform(size=r.randint(1, 9))
    elif kind == 'py_draw':
      random.seed(seed)
    elif kind == 'clock':
      clock.CLOCK.jump(r.choice([-86400, 3600, 86400 * 400, 0.5]))
    elif kind == 'render':
      env = run.get(i)
      if env is not None:
        env.render('human')
    elif kind == 'other_env':
      o = self.make_env({'features': 'stub', 'renderer': False,
                         'field': r.choice(['grid', 'storm', 'simple']),
                         'speed': 20.0}, r.choice([None, seed]))
      for a in range(r.randint(1, 3)):
        o.step(a % 3)
    elif kind == 'read':
      env = run.get(i)
      if env is not None:
        env.get_simulator_state()
        env.observation_space, env.action_space, env.reward_range, str(env)
    elif kind == 'gc':
      import gc
      gc.collect()
    elif kind == 'globals':
      # Values of other unseeded randomness in the library.
      from balloon_learning_environment.agents import agent
      agent.RandomAgent(3, (4,)).begin_episode(None)
    elif kind == 'order':
      flight.Lib.jax.random.normal(flight.Lib.jax.random.PRNGKey(seed), (3,))

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    envs, agents, epochs = {}, {}, []
    cur = {}          # env index -> its epoch
    last = {}         # env index -> (obs, reward, terminal)
    for op in plan['ops']:
      if op[0] == 'noise':
        self.noise(ctx, envs, op)
        continue
      i = op[1]
      c = cfg['envs'][i]
      if op[0] == 'seed':
        env, obs = self.seeded(c, envs.get(i), op[2], op[3])
        envs[i] = env
        ep = {'env': i, 'seed': op[3], 'route': op[2], 'episodes': [
            {'first': self.snapshot(env, obs, None, False, None),
             'steps': []}]}
        epochs.append(ep)
        cur[i], last[i] = ep, (obs, None, False)
        agents[i] = {'agent': self.make_agent(c), 'fresh': True, 'hist': []}
        ep['agent'] = agents[i]
        ctx.fault('seed:' + op[2])
        ctx.log('seed', i, op[3], ep['episodes'][0]['first'])
      elif i not in cur:
        continue
      elif op[0] == 'reset':
        self.next_episode(ctx, cur, last, agents, envs, i)
      else:
        n = op[2] if op[0] == 'fly' else len(op[2])
        for k in range(n):
          if last[i][2]:
            self.next_episode(ctx, cur, last, agents, envs, i)
          if op[0] == 'fly' and agents[i]['agent'] is not None:
            a = self.ask(agents[i], last[i])
          else:
            a = (flight.CODE[flight.LETTER[op[2][k]]] if op[0] == 'act'
                 else k % 3)
          obs, rew, term, info = envs[i].step(a)
          snap = self.snapshot(envs[i], obs, rew, term, info)
          cur[i]['episodes'][-1]['steps'].append((a, snap))
          last[i] = (obs, rew, term)
          ctx.sim_seconds += 180
          ctx.state(i, *flight.bucket(snap['state']))
          ctx.log('step', i, a, snap)
    self.different(ctx, cfg, epochs)
    self.replays(ctx, cfg, epochs, envs)

  def next_episode(self, ctx, cur, last, agents, envs, i):
    obs = envs[i].reset()
    cur[i]['episodes'].append(
        {'first': self.snapshot(envs[i], obs, None, False, None), 'steps': []})
    last[i] = (obs, None, False)
    agents[i]['fresh'] = True
    ctx.log('reset', i, cur[i]['episodes'][-1]['first'])

  def ask(self, holder, last):
    obs, rew, _ = last
    ag = holder['agent']
    if holder['fresh'] or rew is None:
      a = int(ag.begin_episode(obs))
      holder['hist'].append(('begin', obs.copy(), None, a))
      holder['fresh'] = False
    else:
      a = int(ag.step(rew, obs))
      holder['hist'].append(('step', obs.copy(), rew, a))
    return a

  def different(self, ctx, cfg, epochs):
    for e in epochs:
      firsts = [x['first']['state'] for x in e['episodes']]
      for a in range(len(firsts)):
        for b in range(a):
          ctx.check(firsts[a] != firsts[b], 'episodes-repeat',
                    lambda: f'episodes {b} and {a} of seed {e["seed"]} start '
                    f'alike: {firsts[a]}')
    for a in range(len(epochs)):
      for b in range(a):
        x, y = epochs[a], epochs[b]
        if x['seed'] != y['seed']:
          ctx.check(x['episodes'][0]['first']['state'] !=
                    y['episodes'][0]['first']['state'], 'seeds-alike',
                    lambda: f'seeds {x["seed"]} {y["seed"]}')
          ctx.check(x['episodes'][0]['first']['heights'] !=
                    y['episodes'][0]['first']['heights'], 'seeds-alike',
                    lambda: f'atmosphere, seeds {x["seed"]} {y["seed"]}')
        elif cfg['envs'][x['env']] == cfg['envs'][y['env']]:
          self.same(ctx, 'same-seed-differs', x['episodes'][0]['first'],
                    y['episodes'][0]['first'], '')

  def same(self, ctx, klass, want, got, where):
    def what():
      out = []
      for k in want:
        if want[k] != got[k]:
          if k == 'state':
            out.append([(f, want[k][f], got[k][f]) for f in want[k]
                        if want[k][f] != got[k][f]])
          elif k == 'obs':
            np = flight.Lib.np
            a, b = (np.frombuffer(v[k], np.float32) for v in (want, got))
            out.append(('obs', [
                (int(j), float(a[j]), float(b[j]))
                for j in np.flatnonzero(a != b)[:6]] if a.shape == b.shape
                        else (a.shape, b.shape)))
          else:
            out.append((k, want[k], got[k]))
      return f'{where}: {str(out)[:700]}'
    ctx.check(want == got, klass, what)

  def replays(self, ctx, cfg, epochs, envs):
    r = core.prng('replays', cfg['replays'])
    self.long = 0
    for ei, ep in enumerate(epochs):
      modes = r.sample(['fresh', 'used', 'skip', 'fresh_seedroute'], 2)
      for mode in modes:
        self.replay(ctx, cfg, ep, envs, mode, r)
      self.replay_agent(ctx, cfg, ep, r)

  def replay(self, ctx, cfg, ep, envs, mode, r):
    i = ep['env']
    c = dict(cfg['envs'][i], renderer=False)
    np = flight.Lib.np
    np.random.seed(r.randrange(2**32))
    random.seed(r.random())
    clock.CLOCK.jump(r.choice([-1e6, 1.0, 1e6]))
    if mode == 'used':
      # The object that has flown everything in this run.
      env, route = envs[i], r.choice(['reset', 'seed'])
      obs = env.reset(seed=ep['seed'] ^ 5)
      for _ in range(r.randint(0, 4)):
        env.step(r.randrange(3))
    else:
      env, route = None, r.choice(ROUTES)
      if mode == 'fresh_seedroute':
        route = 'seed'
    env, obs = self.seeded(c, env, route, ep['seed'])
    ctx.fault('replay:' + mode)
    where = f'{mode} via {route}, recorded via {ep["route"]}'
    n = 0
    for k, episode in enumerate(ep['episodes']):
      if k:
        obs = env.reset()
      self.same(ctx, 'initial-state', episode['first'],
                self.snapshot(env, obs, None, False, None),
                f'episode {k}, {where}')
      steps = episode['steps']
      if mode == 'skip' and k + 1 < len(ep['episodes']):
        steps = steps[:r.randint(0, len(steps))]
      for j, (a, snap) in enumerate(steps):
        obs, rew, term, info = env.step(a)
        n += 1
        self.same(ctx, 'flight', snap,
                  self.snapshot(env, obs, rew, term, info),
                  f'episode {k} step {j}, {where}')
    if n >= 5:
      self.long += 1
    ctx.probe('replayed_steps', n)

  def replay_agent(self, ctx, cfg, ep, r):
    hist = ep['agent']['hist']
    if not hist:
      return
    np = flight.Lib.np
    np.random.seed(r.randrange(2**32))
    clock.CLOCK.jump(1e5)
    ag = self.make_agent(cfg['envs'][ep['env']])
    for k, (what, obs, rew, a) in enumerate(hist):
      got = int(ag.begin_episode(obs) if what == 'begin'
                else ag.step(rew, obs))
      ctx.check(got == a, 'agent-differs',
                lambda: f'{cfg["envs"][ep["env"]]["agent"]} call {k}: {a} {got}')
    ctx.probe('agent_calls_replayed', len(hist))

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[2]) > 1:
        h = len(op[2]) // 2
        for part in (op[2][:h], op[2][h:], op[2][:-1]):
          yield dict(plan, ops=plan['ops'][:i] + [['act', op[1], part]] +
                     plan['ops'][i + 1:])
      if op[0] == 'fly' and op[2] > 1:
        yield dict(plan, ops=plan['ops'][:i] + [['fly', op[1], op[2] // 2]] +
                   plan['ops'][i + 1:])
    for i, c in enumerate(plan['cfg']['envs']):
      for k, v in (('field', 'simple'), ('agent', None), ('features', 'stub'),
                   ('renderer', False)):
        if c[k] != v and not (k == 'features' and c['agent'] not in
                              (None, 'mlp')):
          e = list(plan['cfg']['envs'])
          e[i] = dict(c, **{k: v})
          yield dict(plan, cfg=dict(plan['cfg'], envs=e))

  def nontrivial(self, plan, ctx):
    return self.long >= 2


class Marco:
  """The exploration strategy as an agent whose own choice is to stay."""

  def __init__(self, strategy):
    self.s = strategy

  def begin_episode(self, obs):
    return self.s.begin_episode(obs, 1)

  def step(self, reward, obs):
    return self.s.step(reward, obs, 1)


PROP = E01()
