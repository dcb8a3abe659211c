"""T07: evaluation reports the true flight and never trains."""
import json

from sim import core
from sim import evalenv
from sim import rl


class T07(core.Prop):
  id = 'T07'
  title = 'Evaluation reports the true flight and never trains'
  rule = ('seeded histories of one agent: training episodes, evaluations of '
          'suites with seeds repeated, reordered and dropped, evaluations that '
          'fail or are broken off half-way, and evaluations after them; every '
          'call and result is compared with the flight worked out from the '
          'actions, every seed with its earlier results, learner and replay '
          'memory with those before; non-trivial: at least two evaluations '
          'finished')
  technique = ('seeded histories of evaluation, training and broken-off '
               'evaluations against a reference account of each flight')
  runs = {'quick': 900, 'thorough': 40000}
  real = ['eval_lib.eval_agent and its encoder, DQNAgent, QuantileAgent, '
          'MLPAgent, RandomWalkAgent with the real BalloonEnv in a share']
  stub = ['scripted environment in most of the runs', 'recording agent']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.eval import eval_lib
    from balloon_learning_environment.eval import suites
    self.eval_lib, self.suites = eval_lib, suites

  def generate(self, rng, tier):
    agent = rng.choice(['stub'] * 4 + ['dqn', 'quantile', 'mlp'] * 2 + ['real'])
    cfg = {'agent': agent, 'env_seed': rng.randrange(2**31),
           'agent_seed': rng.randrange(9973), 'reactive': rng.random() < 0.8,
           'end': rng.choice([0.0, 0.1, 0.4]), 'n_actions': 3,
           'scale': rng.choice([1.0, -3.0, 1000.0]), 'min_history': 6,
           'epsilon': 0.3, 'capacity': 100}
    if agent == 'real' and rng.random() < 0.5:
      cfg['real_agent'] = 'random_walk'
    pool = rng.sample([0, 1, 2, 3, 7, 12, 99, 1234, 2**31 - 1], 5)
    ops = []
    for _ in range(rng.randint(2, 6) if agent != 'real' else 2):
      if agent not in ('stub', 'real') and rng.random() < 0.5:
        ops.append(['train', rng.randint(1, 3), rng.randint(2, 9),
                    rng.randrange(2**31)])
      seeds = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
      if rng.random() < 0.6:
        seeds = rng.sample(pool, rng.randint(1, 4))
      n = rng.choice([1, 2, 5, 12])
      if agent == 'real':
        seeds, n = seeds[:2], rng.choice([1, 3, 6])
      r = rng.random()
      fault = None
      if r < 0.15 and agent != 'real':
        fault = ['error', rng.randint(1, n * len(seeds) + 2)]
      elif r < 0.25 and agent != 'real':
        fault = ['kill', rng.randint(1, n * len(seeds) + 2)]
      ops.append(['eval', seeds, n, rng.random() < 0.8,
                  rng.choice([None, 1, 3]), fault, rng.randrange(2**31)])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('evaluation', 0) >= 2

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.calls = []
    self.results = {}      # (seed, length) -> result of the present learner
    rl.bind(cfg)
    with rl.process(cfg['agent_seed']):
      self.agent = self.make(cfg)
      self.real = None
      if cfg['agent'] == 'real':
        self.real = RealEnv(self.calls)
      for op in plan['ops']:
        getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])

  def make(self, cfg):
    if cfg.get('real_agent') == 'random_walk':
      from balloon_learning_environment.agents import random_walk_agent
      a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=cfg['agent_seed'])
    elif cfg['agent'] in ('stub', 'real'):
      return make_stub(cfg['agent_seed'], self.calls)
    else:
      a = rl.make_agent(cfg, cfg['agent_seed'])
    record(a, self.calls)
    return a

  def learner(self, cfg):
    if cfg['agent'] in ('stub', 'real'):
      return {}, {}
    if cfg['agent'] == 'mlp':
      return {'params': rl.leaves(self.agent.network_params),
              'target': [], 'optimizer': rl.leaves(self.agent.optimizer_state),
              'steps': 0}, {}
    return rl.learner(self.agent), rl.replay(self.agent)

  def op_train(self, cfg, ctx, episodes, length, seed):
    env = rl.ScriptEnv(seed, ctx, [length, 1000])
    self.agent.set_mode('train')
    for _ in range(episodes):
      a = self.agent.begin_episode(env.reset())
      for t in range(length):
        o, r, done, _ = env.step(int(a))
        if done or t == length - 1:
          break
        a = self.agent.step(r, o)
      self.agent.end_episode(r, done)
    self.results.clear()
    ctx.probe('trained')

  def op_eval(self, cfg, ctx, seeds, length, paths, period, fault, mode_seed):
    env = self.real or evalenv.EvalEnv(cfg, ctx, self.calls)
    if self.real is None:
      if fault:
        setattr(env, 'error_at' if fault[0] == 'error' else 'kill_at',
                fault[1] + 1)
    del self.calls[:]
    learner, replay = self.learner(cfg)
    if mode_seed % 3:
      self.agent.set_mode(['train', 'eval'][mode_seed % 2])
    kw = {} if period is None else {'render_period': period}
    suite = self.suites.EvaluationSuite(list(seeds), length)
    outcome, results = 'done', None
    try:
      results = self.eval_lib.eval_agent(
          self.agent, env, suite, calculate_flight_path=paths, **kw)
    except core.SimCrash:
      outcome = 'broken off'
    except evalenv.EvalError:
      outcome = 'failed'
      ctx.fault('env_error')
    flights = self.flights(cfg, ctx, seeds, length, outcome, period or 10)
    ctx.log('eval', seeds, length, outcome, [f['actions'] for f in flights])
    ctx.state(cfg['agent'], outcome, len(seeds), length, len(flights),
              len(self.results) > 0, paths)
    ctx.check(list(suite.seeds) == seeds and suite.max_episode_length == length,
              'suite-altered', 'the suite was altered')
    after, replay_after = self.learner(cfg)
    if learner:
      d = rl.diff_learner(learner, after)
      ctx.check(d is None, 'learned-in-evaluation',
                f'{d} of the agent changed while it was evaluated')
      d = rl.diff_replay(replay, replay_after)
      ctx.check(d is None, 'replay-changed',
                lambda: f'replay memory changed by an evaluation: {d}')
    if fault and self.real is None:
      done = (outcome == 'done')
      ctx.check(not done or env.ncalls <= fault[1], 'lost-error',
                'an error of the environment was swallowed')
    if outcome != 'done':
      return
    ctx.probe('evaluation')
    ctx.check(len(results) == len(seeds), 'wrong-results',
              lambda: f'{len(results)} results for {len(seeds)} seeds')
    text = json.dumps(results, cls=self.eval_lib.EvalResultEncoder)
    for r, f, plain, seed in zip(results, flights, json.loads(text), seeds):
      want = self.expected(cfg, seed, length, f)
      if not paths:
        want['flight_path'] = []
      d = evalenv.difference(plain, want)
      ctx.check(d is None, 'wrong-result', lambda: f'seed {seed} after '
                f'{length} steps: {d}')
      ctx.check(0 <= r.time_within_radius <= 1, 'wrong-result', 'share')
      if cfg.get('real_agent'):
        continue
      key = (seed, length)
      want.pop('flight_path')
      old = self.results.setdefault(key, (f['actions'], want))
      ctx.check(old == (f['actions'], want), 'depends-on-history',
                lambda: f'seed {seed} was {old} before and is '
                f'{(f["actions"], want)} now')

  def expected(self, cfg, seed, length, flight):
    if self.real is None:
      return evalenv.expected(cfg, seed, length, flight['actions'])
    return self.real.expected(seed, flight['actions'])

  # -- the protocol --------------------------------------------------------

  def flights(self, cfg, ctx, seeds, length, outcome, period):
    """The flights that took place, checked call by call."""
    np = rl.Lib.np
    flights = []
    state, mode = 'idle', None
    seeded = None
    obs = reward = terminal = action = None
    same = lambda a, b: np.array_equal(np.asarray(a), np.asarray(b))

    def need(cond, klass, msg):
      ctx.check(cond, klass, lambda: f'{msg} (flight {len(flights)})')

    for e in self.calls:
      k = e[0]
      if k == 'mode':
        mode = e[1]
      elif k == 'seed':
        need(state == 'idle', 'wrong-order', f'seeded while {state}')
        seeded = e[1]
      elif k == 'reset':
        need(state == 'idle', 'wrong-order', f'reset while {state}')
        need(len(flights) < len(seeds) and seeded == seeds[len(flights)],
             'wrong-seed', f'flight {len(flights)} is flown with seed '
             f'{seeded}, the suite has {seeds}')
        flights.append({'actions': [], 'renders': []})
        seeded = None
        obs, terminal, state = e[1], False, 'reset'
      elif k == 'begin':
        need(state == 'reset', 'wrong-order', f'begin_episode while {state}')
        need(mode == 'eval', 'wrong-mode', f'evaluated in {mode} mode')
        need(same(e[1], obs), 'wrong-observation', 'first observation')
        action, state = e[2], 'acting'
      elif k == 'step':
        need(state == 'acting', 'wrong-order', f'flown while {state}')
        need(not e[5], 'stepped-after-terminal', 'flown after the end')
        need(same(e[1], action), 'wrong-action', f'the agent chose {action}, '
             f'the environment got {e[1]}')
        flights[-1]['actions'].append(int(e[1]))
        need(len(flights[-1]['actions']) <= length, 'too-long',
             f'flown longer than {length} steps')
        reward, obs, terminal = e[2], e[3], e[4]
        state = 'flown'
      elif k == 'render':
        if flights and state in ('flown', 'acting'):
          flights[-1]['renders'].append(len(flights[-1]['actions']))
      elif k == 'agent':
        need(state == 'flown', 'wrong-order', f'agent stepped while {state}')
        need(same(e[1], reward), 'wrong-reward', f'{e[1]} instead of {reward}')
        need(same(e[2], obs), 'wrong-observation', 'observation of a step')
        action, state = e[3], 'acting'
      elif k == 'end':
        n = len(flights[-1]['actions']) if flights else 0
        need(state in ('flown', 'acting') and n > 0, 'wrong-order',
             f'ended while {state}')
        need(terminal or n == length, 'ended-early', f'ended after {n} of '
             f'{length} steps')
        need(same(e[1], reward), 'wrong-reward', f'last reward {e[1]} instead '
             f'of {reward}')
        need(bool(e[2]) == bool(terminal), 'wrong-terminal',
             f'end_episode(terminal={e[2]}) with {terminal}')
        r = flights[-1]['renders']
        need(all(b - a == period for a, b in zip(r, r[1:])) and
             len(r) >= n // period, 'wrong-rendering', f'rendered after {r} '
             f'with a period of {period}')
        state = 'idle'
    if outcome == 'done':
      need(state == 'idle' and len(flights) == len(seeds), 'wrong-results',
           f'{len(flights)} flights for {len(seeds)} seeds')
    return flights


def make_stub(seed, calls):
  """A deterministic agent: its action is a function of the observation."""
  base = rl.Lib.agent

  class Stub(base.Agent):

    def _act(self, o):
      np = rl.Lib.np
      return core.derive('a', seed, np.asarray(o).tobytes()) % 3

    def begin_episode(self, observation):
      a = self._act(observation)
      calls.append(('begin', observation, a))
      return a

    def step(self, reward, observation):
      a = self._act(observation)
      calls.append(('agent', reward, observation, a))
      return a

    def end_episode(self, reward, terminal=True):
      calls.append(('end', reward, terminal))

    def set_mode(self, mode):
      calls.append(('mode', base.AgentMode(mode).value))
  return Stub(3, (rl.OBS,))


def record(agent, calls):
  begin, step, end, mode = (agent.begin_episode, agent.step, agent.end_episode,
                            agent.set_mode)

  def begin_episode(observation):
    a = begin(observation)
    calls.append(('begin', observation, a))
    return a

  def step_(reward, observation):
    a = step(reward, observation)
    calls.append(('agent', reward, observation, a))
    return a

  def end_episode(reward, terminal=True):
    calls.append(('end', reward, terminal))
    return end(reward, terminal)

  def set_mode(m):
    calls.append(('mode', rl.Lib.agent.AgentMode(m).value))
    return mode(m)
  agent.begin_episode, agent.step = begin_episode, step_
  agent.end_episode, agent.set_mode = end_episode, set_mode


class RealEnv:
  """The real environment in simple wind, recording."""

  def __init__(self, calls):
    self.calls = calls
    self.env = self.new()
    self.terminal = False
    self.radius = self.env.radius

  @staticmethod
  def new():
    from balloon_learning_environment.env import balloon_env
    from balloon_learning_environment.env import wind_field
    return balloon_env.BalloonEnv(
        wind_field_factory=wind_field.SimpleStaticWindField, seed=5)

  def seed(self, seed=None):
    self.calls.append(('seed', seed))
    return self.env.seed(seed)

  def reset(self):
    o = self.env.reset()
    self.terminal = False
    self.calls.append(('reset', o))
    return o

  def step(self, action):
    before = self.terminal
    o, r, t, info = self.env.step(action)
    self.terminal = t
    self.calls.append(('step', action, r, o, t, before))
    return o, r, t, info

  def get_simulator_state(self):
    return self.env.get_simulator_state()

  def render(self, mode='human'):
    self.calls.append(('render',))
    return self.env.render(mode)

  def expected(self, seed, actions):
    """The same actions flown by a fresh environment."""
    env = self.new()
    env.seed(seed)
    env.reset()
    total, inside, path = 0.0, 0, []
    for a in actions:
      _, r, done, info = env.step(a)
      s = env.get_simulator_state().balloon_state
      total += r
      inside += (s.x.kilometers ** 2 + s.y.kilometers ** 2) ** 0.5 <= 50.0
      path.append({'x': s.x.kilometers, 'y': s.y.kilometers,
                   'pressure': s.pressure, 'superpressure': s.superpressure,
                   'elapsed_seconds': s.time_elapsed.total_seconds(),
                   'power': s.battery_soc})
    return {'seed': seed, 'cumulative_reward': total,
            'time_within_radius': inside / len(actions),
            'out_of_power': bool(done and info['out_of_power']),
            'envelope_burst': bool(done and info['envelope_burst']),
            'zeropressure': bool(done and info['zeropressure']),
            'final_timestep': len(actions), 'flight_path': path}


PROP = T07()
