"""E17: an environment is made of exactly the parts it is given."""
import copy

from sim import clock
from sim import core
from sim import fields
from sim import flight

PARTS = ('reward', 'new_features', 'observe', 'get_features', 'forecast',
         'reset_forecast', 'show', 'show_reset', 'arena_step', 'arena_reset')
NAME = 'BalloonLearningEnvironment-v0'


class PartError(Exception):
  """A part of the environment that fails."""


class Parts:
  """What one environment is made of: recorded, and able to fail."""

  def __init__(self, cfg):
    self.cfg, self.calls, self.bombs, self.raised = cfg, [], {}, None
    self.last = {}

  def tick(self, what, *args):
    left = self.bombs.get(what)
    if left is not None:
      self.bombs[what] = left - 1
      if left == 0:
        self.bombs.clear()
        self.raised = PartError(f'{what} fails')
        raise self.raised
    self.calls.append((what,) + args)

  def take(self, what=None):
    if what is None:
      out, self.calls = self.calls, []
    else:
      out = [c for c in self.calls if c[0] == what]
    return out


class E17(core.Prop):
  id = 'E17'
  title = 'An environment is made of exactly the parts it is given'
  rule = ('seeded interleavings of several environments, constructed directly '
          'or made by name through gym, from drawn parts (reward function, '
          'feature constructor, wind field, arena, renderer, radius, seed), '
          'with registrations, resets and clock jumps in between; parts fail '
          'at drawn calls; all calls and results of the parts are compared '
          'with what the environment did, and each stretch after a seeded '
          'reset with a new, directly constructed environment; non-trivial: '
          'at least ten steps and one replayed stretch')
  technique = ('seeded interleavings with parts that fail at drawn calls, '
               'against recorded parts and newly built environments')
  runs = {'quick': 200, 'thorough': 8000}
  real = ['BalloonEnv, BalloonArena and everything below', 'gym and the '
          'registration']
  stub = ['recording reward function, feature constructor, wind field, '
          'renderer and, in a share, arena']
  assumptions = ['after a part has failed the environment is reset with a seed '
                 'before it is used again']

  def setup(self):
    flight.Lib.load()
    fields.classes()
    import gym
    import warnings
    warnings.simplefilter('ignore')
    gym.logger.set_level(50)
    from balloon_learning_environment.env import features
    from balloon_learning_environment.env import gym as registration
    from balloon_learning_environment.env import wind_field
    from balloon_learning_environment.env.rendering import renderer
    self.gym, self.registration = gym, registration
    registration.register_env()
    L, np = flight.Lib, flight.Lib.np

    class Wind(wind_field.WindField):

      def __init__(self, parts, kind, speed):
        super().__init__()
        self.parts, self.inner = parts, fields.make(kind, speed)

      def reset_forecast(self, key, date_time):
        self.parts.tick('reset_forecast', [int(v) for v in
                                           np.asarray(key).ravel()], date_time)
        self.inner.reset_forecast(key, date_time)

      def get_forecast(self, x, y, pressure, elapsed_time):
        left = self.parts.bombs.get('forecast')
        if left is not None:
          self.parts.tick('forecast')
        return self.inner.get_forecast(x, y, pressure, elapsed_time)

    class Features(features.FeatureConstructor):

      def __init__(self, parts, forecast, atmosphere):
        parts.tick('new_features', forecast, atmosphere)
        self.parts, self.seen = parts, []
        self.real = None
        if parts.cfg['features'] == 'real':
          self.real = features.PerciatelliFeatureConstructor(forecast,
                                                             atmosphere)

      def observe(self, observation):
        self.parts.tick('observe', flight.numbers(
            observation.balloon_observation), observation.wind_at_balloon, self)
        self.seen.append(observation)
        if self.real:
          self.real.observe(observation)

      def get_features(self):
        self.parts.tick('get_features', self)
        if self.real:
          out = self.real.get_features()
        else:
          b = self.seen[-1].balloon_observation
          w = self.seen[-1].wind_at_balloon
          out = np.array([b.pressure, b.x.meters, b.y.meters, b.battery_soc,
                          w.u.mps, w.v.mps, len(self.seen)], np.float32)
        self.parts.last['features'] = out
        return out

      @property
      def observation_space(self):
        if self.real:
          return self.real.observation_space
        return gym.spaces.Box(np.full(7, -1e9, np.float32),
                              np.full(7, 1e9, np.float32))

    class Show(renderer.Renderer):

      def __init__(self, parts):
        self.parts = parts

      def reset(self):
        self.parts.tick('show_reset')

      def step(self, state):
        self.parts.tick('show', flight.numbers(state.balloon_state))

      def render(self, mode, summary_writer=None, iteration=None):
        self.parts.tick('render', mode)
        return self.parts.last.setdefault('frame', object())

      @property
      def render_modes(self):
        return ['human', 'rgb_array', self.parts.cfg['mode']]

    class Arena(L.balloon_arena.BalloonArena):
      """The real arena, recorded; a part that is handed over."""

      def __init__(self, parts, *a, **k):
        self.parts = parts
        super().__init__(*a, **k)

      def step(self, action):
        self.parts.tick('arena_step', action)
        return super().step(action)

      def reset(self, seed=None):
        self.parts.tick('arena_reset')
        return super().reset(seed)

    self.Wind, self.Features, self.Show, self.Arena = Wind, Features, Show, Arena

  # -- plans ---------------------------------------------------------------

  def generate(self, rng, tier):
    envs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
      envs.append({
          'made': rng.choice(['direct', 'direct', 'gym']),
          'field': rng.choice(['simple', 'grid', 'storm']),
          'speed': rng.choice([5.0, 20.0]),
          'features': 'real' if rng.random() < 0.06 else 'stub',
          'reward': rng.choice(['default', 'script', 'script', 'state']),
          'show': rng.random() < 0.5, 'mode': rng.choice(['ansi', 'tensorboard']),
          'arena': rng.random() < 0.3,
          'radius': rng.choice([None, 1.0, 50.0, 200.0]),
          'seed': rng.choice([None, 0, rng.randrange(2**31)])})
    ops = []
    for i, e in enumerate(envs):
      if rng.random() < 0.7:
        ops.append(['reset', i, rng.choice([None, rng.randrange(2**31)]),
                    rng.random() < 0.3])
    for _ in range(rng.randint(6, 30)):
      i, r = rng.randrange(len(envs)), rng.random()
      if r < 0.5:
        ops.append(['step', i, ''.join(rng.choice('dsu') for _ in range(
            rng.choice([1, 1, 2, 5, 12])))])
      elif r < 0.66:
        ops.append(['reset', i, rng.choice([None, 0, rng.randrange(2**31)]),
                    rng.random() < 0.3])
      elif r < 0.72:
        ops.append(['seed', i, rng.randrange(2**31)])
      elif r < 0.86:
        ops.append(['bomb', i, rng.choice(PARTS), rng.choice([0, 0, 1, 2, 5])])
      elif r < 0.9:
        ops.append(['fail', i])
      elif r < 0.94:
        ops.append(['render', i])
      elif r < 0.97:
        ops.append(['register', rng.choice(['again', 'again', 'lost', 'reload',
                                            'other'])])
      else:
        ops.append(['clock', rng.choice([-1e6, 1.0, 3600.0, 1e7])])
    return {'cfg': {'envs': envs, 'salt': rng.randrange(2**31)}, 'ops': ops}

  def directed(self):
    # Longer than the two days of an evaluation.
    env = {'made': 'gym', 'field': 'simple', 'speed': 5.0, 'features': 'stub',
           'reward': 'script', 'show': False, 'mode': 'ansi', 'arena': False,
           'radius': None, 'seed': 7}
    return [{'cfg': {'envs': [env], 'salt': 1},
             'ops': [['register', 'lost'], ['reset', 0, 4, False],
                     ['step', 0, 's' * 1010], ['register', 'reload']]}]

  def shrink(self, plan):
    envs = plan['cfg']['envs']
    for i in range(len(envs)):
      for k, v in (('made', 'direct'), ('field', 'simple'), ('show', False),
                   ('arena', False), ('radius', None), ('features', 'stub')):
        if envs[i][k] != v:
          q = copy.deepcopy(plan)
          q['cfg']['envs'][i][k] = v
          yield q

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('step', 0) >= 10 and ctx.probes.get('replayed', 0) > 0

  # -- building ------------------------------------------------------------

  def parts_of(self, cfg, salt):
    p = Parts(cfg)
    p.fields, p.rewards = [], []

    def wind():
      p.calls.append(('wind_factory',))
      p.fields.append(self.Wind(p, cfg['field'], cfg['speed']))
      return p.fields[-1]

    def scripted(state):
      n = flight.numbers(state.balloon_state)
      p.tick('reward', n)
      if cfg['reward'] == 'state':
        r = n['pressure'] / 7.0 - n['x']
      else:
        h = core.derive('r', salt, round(n['pressure'], 3))
        r = (float(h % 1000) / 7 - 60, h % 5, 0.0, -float(h % 9),
             flight.Lib.np.float32(h % 100))[h % 5]
      p.last['reward'] = r
      return r
    p.wind = wind
    p.new_features = lambda f, a: self.Features(p, f, a)
    p.reward = None if cfg['reward'] == 'default' else scripted
    return p

  def build(self, cfg, p, seed, direct=False):
    kw = {}
    if p.reward is not None:
      kw['reward_function'] = p.reward
    if cfg['show']:
      kw['renderer'] = self.Show(p)
    if cfg['radius'] is not None:
      kw['station_keeping_radius_km'] = cfg['radius']
    if seed is not None:
      kw['seed'] = seed
    if cfg['arena'] and not direct:
      p.arena = self.Arena(p, p.new_features, p.wind(), seed=5)
      p.take()
      p.calls.append(('wind_factory',))
      kw['arena'] = p.arena
    else:
      kw['feature_constructor_factory'] = p.new_features
      kw['wind_field_factory'] = p.wind
    if cfg['made'] == 'gym' and not direct:
      return self.gym.make(NAME, **kw)
    return flight.Lib.balloon_env.BalloonEnv(**kw)

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.all = []
    for i, cfg in enumerate(plan['cfg']['envs']):
      clock.CLOCK.jump(17.5)
      p = self.parts_of(cfg, plan['cfg']['salt'])
      m = {'cfg': cfg, 'p': p, 'i': i, 'salt': plan['cfg']['salt'],
           'state': 'made', 'begun': cfg['seed'], 'episodes': 0, 'log': [],
           'bombs': {}, 'from_ctor': True}
      m['env'] = self.build(cfg, p, cfg['seed'])
      m['base'] = m['env'].unwrapped
      self.built(ctx, m)
      self.all.append(m)
    self.replays = 0
    for op in plan['ops']:
      if op[0] in ('register', 'clock'):
        if op[0] == 'register':
          self.register(ctx, op[1])
        else:
          clock.CLOCK.jump(op[1])
          ctx.fault('clock_jump')
        continue
      if op[1] >= len(self.all):
        continue
      m = self.all[op[1]]
      getattr(self, 'op_' + op[0])(ctx, m, *op[2:])
      ctx.log(op[0], op[1], m['state'], m['episodes'],
              [round(float(v), 4) for v in self.pos(m)])
      ctx.state(op[0], m['state'], m['cfg']['made'], m['cfg']['arena'],
                m['cfg']['show'], bool(m['bombs']))
    for m in self.all:
      self.replay(ctx, m)

  def pos(self, m):
    b = m['base'].arena.get_balloon_state()
    return b.x.meters, b.y.meters, b.pressure

  def register(self, ctx, how):
    envs = self.gym.envs.registration.registry
    spec = self.gym.spec(NAME)
    other = None
    if how == 'other':
      other = f'SimOther-v{len(envs)}'
      self.gym.envs.registration.register(id=other, entry_point='nowhere:Env',
                                          max_episode_steps=3)
    before = sorted(str(k) for k in envs)
    if how == 'lost':
      del envs[NAME]
      ctx.fault('registration_lost')
    if how == 'reload':
      import importlib
      import balloon_learning_environment
      importlib.reload(balloon_learning_environment)
    else:
      self.registration.register_env()
    ctx.check(sorted(str(k) for k in envs) == before and
              (how == 'lost' or self.gym.spec(NAME) is spec),
              'registered-twice', lambda: f'registering ({how}) changed the '
              f'registry from {before[-3:]} to {sorted(map(str, envs))[-3:]}')
    now = self.gym.spec(NAME)
    ctx.check(now.id == NAME and now.max_episode_steps is None, 'wrong-entry',
              lambda: f'{now}')
    if other:
      del envs[other]
    ctx.probe('register')

  def built(self, ctx, m):
    cfg, env, base = m['cfg'], m['env'], m['base']
    what = f'environment {m["i"]}'
    ctx.check(type(base) is flight.Lib.balloon_env.BalloonEnv, 'wrong-env',
              lambda: f'{what} is a {type(base)}')
    calls = m['p'].take()
    ctx.check(sum(c[0] == 'wind_factory' for c in calls) == 1, 'wrong-parts',
              lambda: f'{what}: the wind field was made '
              f'{sum(c[0] == "wind_factory" for c in calls)} times')
    r = 50.0 if cfg['radius'] is None else cfg['radius']
    ctx.check(abs(base.radius.kilometers - r) < 1e-9, 'wrong-radius',
              lambda: f'{what}: radius {base.radius.kilometers} km, given '
              f'{cfg["radius"]}')
    ctx.check(env.action_space.n == 3 and tuple(env.reward_range) == (0.0, 1.0),
              'wrong-space', lambda: f'{what}: {env.action_space} '
              f'{env.reward_range}')
    if cfg['show']:
      modes = list(base.metadata['render.modes'])
      ctx.check(modes == ['human', 'rgb_array', cfg['mode']], 'wrong-modes',
                lambda: f'{what}: modes {modes}')
    if cfg['arena']:
      ctx.check(base.arena is m['p'].arena, 'wrong-parts',
                f'{what} does not fly the arena it was given')
      m['p'].take()
    m['shape'] = env.observation_space.shape

  # The environment was shown one state: what the parts have to have seen.
  def seen(self, ctx, m, what, obs, calls, fresh):
    p, cfg = m['p'], m['cfg']
    now = flight.numbers(m['base'].arena.get_balloon_state())
    state = m['base'].get_simulator_state()
    by = lambda k: [c for c in calls if c[0] == k]
    ctx.check(not by('wind_factory'), 'wrong-parts',
              f'{what}: another wind field was made')
    ctx.check(state.wind_field is p.fields[0], 'wrong-parts',
              f'{what}: the flight has another wind field')
    new = by('new_features')
    ctx.check(len(new) == int(fresh), 'wrong-features', f'{what}: '
              f'{len(new)} feature constructors were made')
    if fresh:
      _, forecast, atmosphere = new[0]
      u = flight.Lib.units
      for k in range(3):
        h = core.derive('q', m['salt'], k, len(m['log']))
        q = (u.Distance(m=h % 300000), u.Distance(m=-(h // 7) % 300000),
             6000.0 + h % 6000)
        t = state.balloon_state.time_elapsed
        a, b = forecast.get_forecast(*q, t), p.fields[0].get_forecast(*q, t)
        ctx.check((a.u.mps, a.v.mps) == (b.u.mps, b.v.mps), 'wrong-features',
                  f'{what}: the features have another forecast')
        x = atmosphere.at_pressure(q[2])
        y = state.atmosphere.at_pressure(q[2])
        ctx.check(x.height.meters == y.height.meters, 'wrong-features',
                  f'{what}: the features have another atmosphere')
      m['features'] = None
    saw = by('observe')
    ctx.check(len(saw) == 1 and saw[0][1] == now, 'wrong-observed', lambda:
              f'{what}: the features observed {len(saw)} states, or not the '
              f'present one')
    wind = p.fields[0].get_ground_truth(
        state.balloon_state.x, state.balloon_state.y,
        state.balloon_state.pressure, state.balloon_state.time_elapsed)
    ctx.check((saw[0][2].u.mps, saw[0][2].v.mps) == (wind.u.mps, wind.v.mps),
              'wrong-observed', f'{what}: the features observed another wind '
              'than blows there')
    if fresh:
      m['features'] = saw[0][3]
    ctx.check(saw[0][3] is m['features'] is not None and
              state.feature_constructor is m['features'], 'wrong-features',
              f'{what}: another feature constructor observed')
    np = flight.Lib.np
    ctx.check(isinstance(obs, np.ndarray) and obs.shape == m['shape'] and
              np.array_equal(obs, p.last['features']), 'wrong-observation',
              f'{what}: the observation is not what the features say')
    shown = by('show')
    ctx.check(len(shown) == int(cfg['show']) and
              all(c[1] == now for c in shown) and
              len(by('show_reset')) == int(cfg['show'] and fresh),
              'wrong-shown', lambda: f'{what}: shown {len(shown)} states after '
              f'{len(by("show_reset"))} restarts')
    return now

  def guarded(self, ctx, m, what, call):
    """Runs a call; (ok, result). A part that fails has to be heard of."""
    p = m['p']
    p.take()
    p.raised, p.bombs = None, m['bombs']
    try:
      out = call()
    except PartError as e:
      m['bombs'], p.bombs = {}, {}
      ctx.check(e is p.raised, 'wrong-exception', f'{what}: {e!r} instead of '
                f'{p.raised!r}')
      ctx.fault('part_failed_' + str(e).split()[0])
      m['state'] = 'failed'
      self.replay(ctx, m)
      m.update(begun=None, log=[])
      return False, None
    m['bombs'], p.bombs = p.bombs, {}
    ctx.check(p.raised is None, 'swallowed-exception', f'{what}: '
              f'{p.raised!r} was swallowed')
    return True, out

  def op_bomb(self, ctx, m, part, k):
    if m['state'] != 'failed':
      m['bombs'][part] = k

  def op_fail(self, ctx, m):
    """The vehicle runs out of power in the next step."""
    if m['state'] != 'flying':
      return
    m['base'].arena.set_balloon_state(flight.apply_fault(
        m['base'].arena.get_balloon_state(), None, 'battery', [0.0]))
    ctx.fault('battery')
    m['log'].append(('fail',))

  def op_render(self, ctx, m):
    if m['cfg']['made'] == 'gym' or m['state'] == 'failed':
      return
    ok, out = self.guarded(ctx, m, 'render', lambda: m['env'].render(
        mode='rgb_array'))
    if not ok:
      return
    calls = m['p'].take()
    want = [('render', 'rgb_array')] if m['cfg']['show'] else []
    ctx.check(calls == want and out is m['p'].last.get('frame'),
              'wrong-picture', f'rendering: {calls}, {out}')

  def op_seed(self, ctx, m, seed):
    if m['state'] == 'failed':
      return
    before = flight.numbers(m['base'].arena.get_balloon_state())
    m['base'].seed(seed)
    ctx.check(flight.numbers(m['base'].arena.get_balloon_state()) == before,
              'seed-moves', 'seeding changed the flight')
    m['seeded'] = seed

  def op_reset(self, ctx, m, seed, info):
    if m['state'] == 'failed':
      seed = seed if seed is not None else core.derive('s', m['salt'],
                                                       len(m['log'])) % 2**31
    what = f'environment {m["i"]}, reset({seed})'
    kw = {} if seed is None else {'seed': seed}
    if info:
      kw['return_info'] = True
    if m['state'] != 'failed':
      self.replay(ctx, m)
    failed = m['state'] == 'failed'
    ok, obs = self.guarded(ctx, m, what, lambda: m['env'].reset(**kw))
    if not ok:
      return
    calls = m['p'].take()
    if info:
      obs, got = obs
      ctx.check(not (got['out_of_power'] or got['envelope_burst'] or
                     got['zeropressure']) and
                got['time_elapsed'].total_seconds() == 0, 'wrong-info',
                f'{what}: {got}')
    self.seen(ctx, m, what, obs, calls, True)
    ctx.check(not any(c[0] == 'reward' for c in calls), 'wrong-reward',
              f'{what} asked for a reward')
    pending = m.pop('seeded', None)
    if seed is None:
      seed = pending
    if seed is not None:
      m.update(begun=seed, log=[], from_ctor=False)
      if failed:
        ctx.probe('recovered')
        m['must'] = True
    m['log'].append(('reset', obs.copy()))
    m['state'] = 'flying'
    m['episodes'] += 1

  def op_step(self, ctx, m, letters):
    if m['state'] == 'made':
      # gym insists on a reset; one that was constructed may fly at once.
      if m['cfg']['made'] == 'gym':
        return
      m['features'] = m['base'].get_simulator_state().feature_constructor
      m['log'].append(('constructed',))
      m['state'] = 'flying'
    for letter in letters:
      if m['state'] != 'flying':
        return
      what = f'environment {m["i"]}, step {letter}'
      code = flight.CODE[flight.LETTER[letter]]
      before = flight.numbers(m['base'].arena.get_balloon_state())
      ok, out = self.guarded(ctx, m, what, lambda: m['env'].step(code))
      if not ok:
        return
      obs, reward, terminal, info = out
      calls = m['p'].take()
      now = self.seen(ctx, m, what, obs, calls, False)
      ctx.check(now['elapsed'] > before['elapsed'] and
                now['last'] == flight.LETTER[letter], 'wrong-step',
                f'{what}: {now["elapsed"] - before["elapsed"]} s, '
                f'{now["last"]}')
      asked = [c for c in calls if c[0] == 'reward']
      if m['cfg']['reward'] != 'default':
        ctx.check(len(asked) == 1 and asked[0][1] == now, 'wrong-reward',
                  lambda: f'{what}: the reward function was asked '
                  f'{len(asked)} times, or not about the end of the step')
        ctx.check(reward == m['p'].last['reward'], 'wrong-reward', lambda:
                  f'{what}: reward {reward}, the function said '
                  f'{m["p"].last["reward"]}')
      if m['cfg']['arena']:
        steps = [c for c in calls if c[0] == 'arena_step']
        ctx.check(len(steps) == 1 and int(steps[0][1].value) == code,
                  'wrong-action', lambda: f'{what}: the arena got {steps}')
      status = now['status']
      ctx.check(terminal == (status != 'OK') and
                info['out_of_power'] == (status == 'OUT_OF_POWER'),
                'wrong-end', lambda: f'{what}: {status}, {terminal}, {info}')
      m['log'].append(('step', letter, obs.copy(), reward, bool(terminal),
                       dict(info)))
      ctx.probe('step')
      ctx.sim_seconds += 180
      if terminal:
        m['state'] = 'over'

  # -- replaying -------------------------------------------------------------

  def replay(self, ctx, m):
    """What was flown since the last seed, in a new environment."""
    log, seed = m['log'], m['begun']
    flown = sum(e[0] == 'step' for e in log)
    must = m.pop('must', False)
    if seed is None or flown == 0 or (self.replays >= 2 and not must):
      return
    self.replays += 1
    ctx.probe('replayed')
    p = self.parts_of(dict(m['cfg'], show=False), m['salt'])
    cfg = dict(m['cfg'], show=False, radius=None)
    np = flight.Lib.np
    env = self.build(cfg, p, seed, direct=True)
    if not m['from_ctor']:
      env.seed(seed)
    for n, e in enumerate(log):
      what = (f'environment {m["i"]} with seed {seed}, entry {n}: differs from '
              'a new environment in its ')
      if e[0] == 'reset':
        obs = env.reset()
        ctx.check(np.array_equal(obs, e[1]), 'not-the-same',
                  what + 'first observation')
      elif e[0] == 'fail':
        env.arena.set_balloon_state(flight.apply_fault(
            env.arena.get_balloon_state(), None, 'battery', [0.0]))
      elif e[0] == 'step':
        obs, reward, terminal, info = env.step(flight.CODE[flight.LETTER[e[1]]])
        for name, a, b in (('observation', obs, e[2]), ('reward', reward, e[3]),
                           ('end', terminal, e[4])):
          ctx.check(np.array_equal(a, b), 'not-the-same', lambda:
                    what + f'{name}: {a} {b}')
        ctx.check(dict(info) == e[5], 'not-the-same', what + 'info')


PROP = E17()
