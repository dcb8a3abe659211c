"""T08: exploration follows the four-hours-on, two-hours-off schedule."""
import math

from sim import clock
from sim import core
from sim import rl

RL, EXPLORE = 80, 40      # agent steps of three minutes: 4 hours and 2 hours


class T08(core.Prop):
  id = 'T08'
  title = 'Exploration follows the four-hours-on, two-hours-off schedule'
  rule = ('seeded histories of episodes (short, long, of lengths around the '
          'changes of phase, broken off) over several exploration modules '
          'interleaved with each other, or inside a QuantileAgent that is '
          'switched between training and evaluation, with wall clock jumps; '
          'every action and every call on the recording exploratory agent is '
          'compared with the schedule, the number of exploratory episodes with '
          'the probability; non-trivial: an exploratory phase was entered')
  technique = ('seeded interleavings of episodes, modes and modules against a '
               'reference schedule')
  runs = {'quick': 1500, 'thorough': 60000}
  real = ['MarcoPoloExploration, Exploration, QuantileAgent, RandomWalkAgent']
  stub = ['recording exploratory agent', 'scripted observations']
  assumptions = ['whether an episode explores shows only if it lasts 80 steps']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.agents import random_walk_agent
    self.walk = random_walk_agent

  def generate(self, rng, tier):
    inside = rng.random() < 0.12
    cfg = {'inside': inside, 'p': rng.choice([0.0, 0.2, 0.5, 0.8, 1.0, 1.0]),
           'modules': 1 if inside else rng.choice([1, 1, 2, 3]),
           'agent': 'quantile', 'seed': rng.randrange(9973),
           'epsilon': 0.0, 'min_history': 10**6, 'capacity': 400,
           'seeded': rng.random() < 0.5, 'clock': rng.randrange(10**6)}
    if not inside and rng.random() < 0.03:     # a census of the decisions
      cfg.update(p=rng.choice([0.1, 0.3, 0.5, 0.8, 0.9]), modules=1)
      return {'cfg': cfg, 'ops': [['episode', 0, RL + 1, 'train', False]
                                  for _ in range(300)]}
    ops = []
    n = rng.randint(2, 5) if inside else rng.randint(3, 40)
    for _ in range(n):
      m = rng.randrange(cfg['modules'])
      length = rng.choice([1, 5, 79, 80, 81, 82, 119, 120, 121, 160, 200, 201,
                           240, 241, rng.randint(1, 400)])
      if not inside and rng.random() < 0.05:
        length = 960
      mode = 'eval' if inside and rng.random() < 0.3 else 'train'
      ops.append(['episode', m, length, mode, rng.random() < 0.2])
      if rng.random() < 0.1:
        ops.append(['clock', rng.choice([1e-6, 3600.0, -86400.0])])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('exploratory', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = dict(plan['cfg'], _exploration=None)
    clock.CLOCK.jump(cfg['clock'])
    self.count = {True: 0, False: 0}
    self.calls = [[] for _ in range(cfg['modules'])]
    self.sequences = [[] for _ in range(cfg['modules'])]
    with rl.process(cfg['seed']):
      if cfg['inside']:
        self.build_agent(cfg)
      else:
        self.modules = [self.module(cfg, i) for i in range(cfg['modules'])]
      self.last = None
      ops = list(plan['ops'])
      # Episodes on different modules are flown side by side.
      while ops:
        batch = []
        while ops and ops[0][0] == 'episode' and \
            ops[0][1] not in [b[1] for b in batch]:
          batch.append(ops.pop(0))
        if not batch:
          clock.CLOCK.jump(ops.pop(0)[1])
          ctx.fault('clock_jump')
          continue
        flights = [self.fly(cfg, ctx, *b[1:]) for b in batch]
        while flights:
          for f in list(flights):
            if next(f, None) is None:
              flights.remove(f)
    self.frequency(cfg, ctx)

  def module(self, cfg, i):
    calls = self.calls[i]
    kw = {'seed': cfg['seed'] + i} if cfg['seeded'] else {}
    return rl.Lib.marco.MarcoPoloExploration(
        3, (rl.OBS,), exploratory_episode_probability=cfg['p'],
        exploratory_agent_constructor=lambda n, s: make_recorder(n, s, calls),
        **kw)

  def build_agent(self, cfg):
    cfg['_exploration'] = lambda n, s: self.module(cfg, 0)
    rl.bind(cfg)
    self.agent = rl.make_agent(cfg, cfg['seed'])

  def fly(self, cfg, ctx, m, length, mode, broken):
    """One episode, a step at a time."""
    np = rl.Lib.np
    calls = self.calls[m]
    k = len(self.sequences[m])
    learned = lambda t: 10 + core.derive('l', k, t) % 3   # never an explorer's
    own = []
    explores = None
    obs = lambda t: np.asarray([m, k, t, 0, 0, 0], dtype=np.float32)
    reward = lambda t: m * 1e6 + k * 1e3 + t
    if cfg['inside']:
      self.agent.set_mode(mode)
    for t in range(length):
      before = len(calls)
      if cfg['inside']:
        a = self.agent.begin_episode(obs(0)) if t == 0 else \
            self.agent.step(reward(t), obs(t))
      elif t == 0:
        a = self.modules[m].begin_episode(obs(0), learned(0))
      else:
        a = self.modules[m].step(reward(t), obs(t), learned(t))
      new = calls[before:]
      where = f'module {m}, episode {k}, step {t} of {length}'
      train = mode == 'train'
      due = t % (RL + EXPLORE) >= RL
      if t == 0:
        ctx.check(len(new) == (1 if train else 0) and
                  (not new or new[0][0] == 'begin' and
                   np.array_equal(new[0][1], obs(0))), 'explorer-not-told',
                  lambda: f'{where} ({mode}): the exploratory agent saw '
                  f'{brief(new)} at the start')
        ctx.check(new == [] or int(a) != new[0][2] or cfg['inside'],
                  'explored-first', f'{where}: the first action is explored')
      elif not train:
        ctx.check(not new, 'explored-in-evaluation',
                  lambda: f'{where}: the exploratory agent saw {brief(new)} in '
                  f'evaluation')
      elif new:
        ctx.check(due, 'wrong-phase', f'{where}: the exploratory agent was '
                  f'asked in the four hours of the learned policy')
        ctx.check(len(new) == 1 and new[0][0] == 'step' and
                  new[0][1] == reward(t) and
                  np.array_equal(new[0][2], obs(t)), 'explorer-not-told',
                  lambda: f'{where}: the exploratory agent saw {brief(new)}')
        ctx.check(int(a) == new[0][3], 'wrong-action', f'{where}: the action '
                  f'is {a}, the exploratory agent chose {new[0][3]}')
        ctx.check(explores is not False, 'decided-twice', f'{where}: starts '
                  f'exploring only now')
        explores = True
      else:
        ctx.check(not (due and explores), 'wrong-phase', f'{where}: the '
                  f'learned policy was asked in the two hours of exploration')
        if due:
          explores = False
      if not new and not cfg['inside']:
        ctx.check(int(a) == learned(t), 'wrong-action', f'{where}: the action '
                  f'is {a}, the learned policy chose {learned(t)}')
      if cfg['inside']:
        ctx.check(0 <= int(a) < 3 or (new and int(a) == new[-1][-1]),
                  'wrong-action', f'{where}: action {a}')
      own.append(int(a))
      yield t
    if cfg['inside'] and not broken:
      self.agent.end_episode(reward(length), True)
    if broken:
      ctx.fault('episode_broken_off')
    if mode == 'train' and explores is not None:
      self.count[explores] += 1
      if explores:
        ctx.probe('exploratory')
      ctx.check(explores or cfg['p'] < 1, 'wrong-probability',
                f'module {m}, episode {k} does not explore with probability 1')
      ctx.check(not explores or cfg['p'] > 0, 'wrong-probability',
                f'module {m}, episode {k} explores with probability 0')
    self.sequences[m].append(explores)
    ctx.log('episode', m, k, length, mode, explores)
    ctx.state(length, mode, explores, self.last)
    self.last = (explores, broken)

  def frequency(self, cfg, ctx):
    n, k, p = sum(self.count.values()), self.count[True], cfg['p']
    if not n or p in (0.0, 1.0):
      return
    # Two-sided binomial tail; 1e-9 means never in as many runs as we do.
    tail = lambda r: sum(math.comb(n, i) * p**i * (1 - p)**(n - i) for i in r)
    ctx.check(tail(range(0, k + 1)) > 1e-9 and tail(range(k, n + 1)) > 1e-9,
              'wrong-probability', f'{k} of {n} episodes explored with a '
              f'probability of {p}')
    ctx.probe('episodes', n)
    ctx.probe(f'explored_p{p}', k)
    ctx.probe(f'all_p{p}', n)


def make_recorder(num_actions, observation_shape, calls):
  base = rl.Lib.agent

  class Recorder(base.Agent):

    def begin_episode(self, observation):
      a = 20 + core.derive('b', len(calls)) % 3
      calls.append(('begin', observation, a))
      return a

    def step(self, reward, observation):
      a = 20 + core.derive('e', len(calls)) % 3
      calls.append(('step', reward, observation, a))
      return a

    def end_episode(self, reward, terminal=True):
      pass
  return Recorder(num_actions, observation_shape)


def brief(calls):
  return [(c[0],) + tuple(str(x)[:40] for x in c[1:]) for c in calls][:3]


PROP = T08()
