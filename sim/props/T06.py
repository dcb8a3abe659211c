"""T06: training alternates agent and environment faithfully."""
from sim import core
from sim import loop
from sim import rl
from sim import scratch


class T06(core.Prop):
  id = 'T06'
  title = 'Training alternates agent and environment faithfully'
  rule = ('seeded lives of the training loop (iterations, episodes, maximum '
          'lengths, rendering periods, endings, rewards of several types, '
          'agents left in evaluation mode, environments and agents that fail '
          'or die at a drawn call, resuming afterwards) around a recording '
          'agent and environment; the recorded history is checked call by '
          'call; non-trivial: at least two episodes')
  technique = ('seeded histories with kills and failing calls; every recorded '
               'call checked against the protocol')
  runs = {'quick': 6000, 'thorough': 250000}
  real = ['train_lib.run_training_loop', 'CollectorDispatcher',
          'BalloonEnv in a share of the runs']
  stub = ['recording agent', 'scripted environment in most of the runs',
          'recording collector']

  def setup(self):
    rl.Lib.load()

  def generate(self, rng, tier):
    real = rng.random() < 0.01
    cfg = {'epi': rng.choice([1, 1, 2, 3, 5]),
           'max_len': rng.choice([1, 2, 3, 7, 20]),
           'lengths': [rng.choice([1, 2, 5, 7, 1000]) for _ in range(7)],
           'period': rng.choice([1, 2, 3, 7, 10, 30, None]),
           'n_actions': rng.choice([2, 3, 3, 7]), 'real': real,
           'kind': rng.choice(['float', 'float', 'float32', 'zero', 'int']),
           'collectors': rng.randint(0, 2), 'numpy_terminal': rng.random() < 0.3,
           'seed': rng.randrange(2**31)}
    if real:
      cfg.update(max_len=rng.choice([3, 7]), epi=rng.choice([1, 2]))
    ops, target = [], 0
    for _ in range(rng.randint(1, 2 if real else 4)):
      target += rng.choice([0, 1, 2, 3] if not real else [1])
      calls = cfg['epi'] * (cfg['max_len'] + 1) * 3
      r = rng.random()
      fault = None
      if r < 0.25:
        fault = ['kill_env', rng.randint(1, calls)]
      elif r < 0.4:
        fault = ['kill_agent', rng.randint(1, calls)]
      elif r < 0.5:
        fault = ['env_error', rng.randint(1, calls)]
      ops.append(['run', target, fault, rng.choice(['train', 'eval', None]),
                  rng.randrange(2**31)])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('episode', 0) >= 2

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.durable = {}
    try:
      for op in plan['ops']:
        self.op_run(cfg, ctx, *op[1:])
    finally:
      scratch.drop(self.base)

  def op_run(self, cfg, ctx, target, fault, mode, seed):
    events = []
    start = max(self.durable) + 1 if self.durable else 0
    agent = loop.make_stub(ctx, cfg['n_actions'], seed, events, self.durable)
    env = self.environment(cfg, ctx, seed, events)
    if mode:
      agent.set_mode(mode)
    if fault:
      if fault[0] == 'kill_agent':
        agent.kill_at = fault[1]
      else:
        env.kill_at = fault[1]
        env.fail = fault[0] == 'env_error'
    kw = {} if cfg['period'] is None else {'render_period': cfg['period']}
    outcome = 'done'
    try:
      rl.Lib.train_lib.run_training_loop(
          self.base, env, agent, target, cfg['max_len'],
          [loop.make_recorder(events, i) for i in range(cfg['collectors'])],
          episodes_per_iteration=cfg['epi'], **kw)
    except core.SimCrash:
      outcome = 'killed'
    except EnvError:
      outcome = 'env error'
      ctx.fault('env_error')
    n = sum(e[0] == 'env_reset' for e in events)
    ctx.probe('episode', n)
    ctx.log('run', target, start, outcome, len(events), n, env.ncalls)
    ctx.state(outcome, start > 0, cfg['epi'], cfg['max_len'], cfg['period'],
              min(n, 6), mode)
    self.check(cfg, ctx, events, start, target, outcome, env)

  def environment(self, cfg, ctx, seed, events):
    if cfg['real']:
      return RealEnv(cfg, ctx, seed, events)
    env = TypedEnv(seed, ctx, cfg['lengths'], cfg['n_actions'], events)
    env.kind, env.numpy_terminal = cfg['kind'], cfg['numpy_terminal']
    return env

  # -- oracle --------------------------------------------------------------

  def check(self, cfg, ctx, events, start, target, outcome, env):
    """One pass over the history: the state says which call may come next."""
    np = rl.Lib.np
    period = cfg['period'] or 10
    state = 'idle'
    obs = reward = terminal = action = None
    steps = episodes = saves = 0
    mode = 'train'
    reloaded = False
    rendered, phases = [], set()
    same = lambda a, b: np.array_equal(np.asarray(a), np.asarray(b))

    def need(cond, klass, msg):
      ctx.check(cond, klass, lambda: f'{msg} (episode {episodes}, step {steps} '
                f'of the process)')

    for e in events:
      k = e[0]
      if k.startswith('c_') or k == 'writer':
        continue
      if k == 'mode':
        mode = e[1]
      elif k == 'reload':
        need(not reloaded and state == 'idle' and episodes == 0,
             'late-reload', 'checkpoints were reloaded at another time than '
             'the beginning')
        need(e[1] == self.base + '/checkpoints', 'wrong-directory',
             f'checkpoints reloaded from {e[1]}')
        reloaded = True
      elif k == 'env_reset':
        need(reloaded, 'not-resumed', 'flying before looking for checkpoints')
        need(state == 'idle', 'episode-not-ended', f'reset while {state}')
        need(saves == episodes // cfg['epi'], 'wrong-episodes',
             f'{saves} checkpoints saved before episode {episodes} with '
             f'{cfg["epi"]} episodes per iteration')
        state, obs, steps, rendered = 'reset', e[2], 0, []
        terminal = False
      elif k == 'begin':
        need(state == 'reset', 'wrong-order', f'begin_episode while {state}')
        need(mode == 'train', 'wrong-mode', f'training an agent in {mode} mode')
        need(same(e[1], obs), 'wrong-observation', 'begin_episode was not '
             'given the observation of the reset')
        state = 'asked'
      elif k == 'action':
        action = e[1]
        state = 'acting'
      elif k == 'env_step':
        need(state == 'acting', 'wrong-order', f'environment stepped '
             f'while {state}')
        need(not e[5], 'stepped-after-terminal', 'the environment was '
             'stepped after a terminal')
        need(same(e[1], action), 'wrong-action', f'the agent chose {action}, '
             f'the environment got {e[1]}')
        _, _, obs, reward, terminal = e[:5]
        steps += 1
        need(steps <= cfg['max_len'], 'too-long', f'{steps} steps with a '
             f'maximum of {cfg["max_len"]}')
        state = 'flown'
      elif k == 'render':
        if state in ('flown',):
          rendered.append(steps)
      elif k == 'step':
        need(state == 'flown', 'wrong-order', f'agent stepped while {state}')
        need(not terminal, 'wrong-order', 'agent asked for an action after '
             'the terminal step')
        need(steps < cfg['max_len'], 'reward-twice', 'agent asked for another '
             'action after the last step of a cut-off episode')
        need(same(e[1], reward), 'wrong-reward', f'the environment gave '
             f'{reward!r}, the agent got {e[1]!r}')
        need(same(e[2], obs), 'wrong-observation', 'the agent was not given '
             'the observation of the step')
        state = 'asked'
      elif k == 'end':
        need(state == 'flown', 'wrong-order', f'end_episode while {state}')
        need(terminal or steps == cfg['max_len'], 'ended-early',
             f'the episode was ended after {steps} of {cfg["max_len"]} steps '
             f'without a terminal')
        need(same(e[1], reward), 'wrong-reward', f'the last reward was '
             f'{reward!r}, end_episode got {e[1]!r}')
        need(bool(e[2]) == bool(terminal), 'wrong-terminal',
             f'end_episode(terminal={e[2]}) after a step with terminal '
             f'{terminal}')
        phases |= {(r - 1) % period for r in rendered}
        need(len(rendered) == len(set(rendered)) and len(phases) <= 1 and
             all(b - a == period for a, b in zip(rendered, rendered[1:])),
             'wrong-rendering', f'rendered after steps {rendered} with a '
             f'period of {period}')
        need(len(rendered) >= steps // period, 'wrong-rendering',
             f'rendered {len(rendered)} times in {steps} steps with a period '
             f'of {period}')
        state = 'idle'
        episodes += 1
      elif k == 'save':
        need(state == 'idle' and episodes == (saves + 1) * cfg['epi'],
             'wrong-checkpoint', f'checkpoint after {episodes} episodes, '
             f'{cfg["epi"]} per iteration, {saves} saved')
        need(e[2] == start + saves, 'wrong-checkpoint', f'checkpoint {e[2]} '
             f'saved, expected {start + saves}')
        need(e[1] == self.base + '/checkpoints', 'wrong-directory',
             f'checkpoint saved to {e[1]}')
        saves += 1
    if outcome == 'done':
      n = max(0, target - start)
      need(state == 'idle' and saves == n and episodes == n * cfg['epi'],
           'wrong-iterations', f'{episodes} episodes and {saves} checkpoints '
           f'from iteration {start} to {target} with {cfg["epi"]} episodes each')
    else:
      need(env.ncalls > 0 or outcome == 'killed', 'lost-error', outcome)
    if outcome == 'done' and getattr(env, 'failed', False):
      need(False, 'lost-error', 'an error of the environment was swallowed')


class EnvError(RuntimeError):
  pass


class TypedEnv(loop.LoopEnv):
  kind = 'float'
  numpy_terminal = False
  fail = failed = False

  def _tick(self):
    if self.fail and self.kill_at is not None and \
        self.ncalls + 1 >= self.kill_at:
      self.ncalls += 1
      self.failed = True
      raise EnvError('the environment failed')
    super()._tick()

  def reward(self, e, t):
    np = rl.Lib.np
    r = super().reward(e, t)
    return {'float': r, 'float32': np.float32(r), 'zero': 0.0 if t % 2 else -r,
            'int': int(r * 100)}[self.kind]

  def step(self, action):
    o, r, t, info = super().step(action)
    if self.numpy_terminal:
      t = rl.Lib.np.bool_(t)
      e = list(self.events[-1])
      e[4] = t
      self.events[-1] = tuple(e)
    return o, r, t, info


class RealEnv:
  """The real environment (simple wind), recording."""
  fail = failed = False

  def __init__(self, cfg, ctx, seed, events):
    from balloon_learning_environment.env import balloon_env
    from balloon_learning_environment.env import wind_field
    self.env = balloon_env.BalloonEnv(
        wind_field_factory=wind_field.SimpleStaticWindField, seed=seed % 2**31)
    self.events, self.ctx = events, ctx
    self.ncalls, self.kill_at = 0, None
    self.action_space = rl.Space(min(3, cfg['n_actions']))
    self.terminal = False
    self.lengths, self.t = cfg['lengths'], 0

  def tick(self):
    self.ncalls += 1
    if self.kill_at is not None and self.ncalls >= self.kill_at:
      if self.fail:
        self.failed = True
        raise EnvError('the environment failed')
      self.ctx.fault('crash_in_env')
      raise core.SimCrash('killed in the environment')

  def reset(self):
    self.tick()
    o = self.env.reset()
    self.terminal = False
    self.events.append(('env_reset', 0, o))
    return o

  def step(self, action):
    self.tick()
    before = self.terminal
    o, r, t, info = self.env.step(min(int(action), 2))
    self.terminal = t
    self.events.append(('env_step', action, o, r, t, before))
    return o, r, t, info

  def render(self, mode='human'):
    self.events.append(('render', 0, 0))
    return self.env.render(mode)


PROP = T06()
