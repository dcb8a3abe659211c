"""T14: exploring agents wander as documented, reproducibly."""
import copy
import math

from sim import clock
from sim import core
from sim import rl

UP, STAY, DOWN = 2, 1, 0
LOW, HIGH = 5000.0, 14000.0     # the pressure feature's range
BAND = 100.0
SPREAD = 180 * 0.1666           # Pa per step of an episode so far


class T14(core.Prop):
  id = 'T14'
  title = 'Exploring agents wander as documented, reproducibly'
  rule = ('seeded interleavings of episodes of several random-walk agents '
          '(given or clock-drawn seeds) with drawn rewards, modes, episode '
          'ends and balloon pressures far from, near and at the band around '
          'the target; targets are found from outside, by asking copies of '
          'the agent what they would do at other pressures; a twin with the '
          'same seed sees other pressures and rewards; random agents are '
          'driven likewise; non-trivial: at least ten targets were found')
  technique = ('seeded interleavings of several agents against a threshold '
               'reference, a twin and the documented distribution')
  runs = {'quick': 500, 'thorough': 30000}
  real = ['RandomWalkAgent', 'RandomAgent', 'NamedPerciatelliFeatures',
          'sample_pressure', 'jax.random', 'agent registry']
  stub = ['scripted observations', 'simulated wall clock']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.agents import agent
    from balloon_learning_environment.agents import random_walk_agent
    self.walk = random_walk_agent.RandomWalkAgent
    self.random = agent.RandomAgent
    from balloon_learning_environment.env.balloon import control
    c = control.AltitudeControlCommand
    assert (c.UP, c.STAY, c.DOWN) == (UP, STAY, DOWN)

  def generate(self, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    cfg = {'seeds': [rng.choice([None, 0, 1, rng.randrange(2**31)])
                     for _ in range(n)],
           'fill': rng.choice([0.0, 0.0, 1.0, 'noise']),
           'salt': rng.randrange(2**31)}
    if n > 1 and rng.random() < 0.3:
      cfg['seeds'][1] = cfg['seeds'][0]
    ops = []
    if rng.random() < 0.1:
      # A long flight, or many short ones.
      if rng.random() < 0.5:
        ops = [['begin', 0, 0.0]] + [['step', 0, 0.0, 0.0]] * 80
      else:
        ops = [['begin', 0, 0.0]] * 80
    else:
      live = set()
      for _ in range(rng.randint(8, 40)):
        i = rng.randrange(n)
        r = rng.random()
        if i not in live or r < 0.1:
          ops.append(['begin', i, self.offset(rng)])
          live.add(i)
        elif r < 0.2:
          ops.append(['end', i, rng.random() < 0.5])
          live.discard(i)
        elif r < 0.25:
          ops.append(['mode', i, rng.choice(['train', 'eval'])])
        elif r < 0.3:
          ops.append(['random', rng.choice([1, 2, 3, 7]), rng.choice([1, 40])])
        else:
          ops.append(['step', i, self.offset(rng),
                      rng.choice([0.0, 1.0, -5.0, 1e6, float('1e-9')])])
    return {'cfg': cfg, 'ops': ops}

  def directed(self):
    ops = []
    for _ in range(20):
      ops += [['begin', 0, 0.0]] + [['step', 0, 0.0, 1.0]] * 22
    ops += [['random', 3, 500]]
    return [{'cfg': {'seeds': [s], 'fill': 0.0, 'salt': s}, 'ops': list(ops)}
            for s in (3, 14)]

  def offset(self, rng):
    """Pressure of the balloon relative to the target, or None: anywhere."""
    return rng.choice([None, 0.0, 95.0, -95.0, 105.0, -105.0, 110.0, 60.0,
                       -60.0, 3000.0, -3000.0, -110.0])

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('target', 0) >= 10

  def observation(self, pressure, salt=0):
    np = rl.Lib.np
    fill = self.cfg['fill']
    if fill == 'noise':
      r = np.random.RandomState(core.derive('n', self.cfg['salt'], salt) %
                                2**32)
      o = r.uniform(-1, 1, 1099).astype(np.float32)
    else:
      o = np.full(1099, fill, dtype=np.float32)
    o[0] = (pressure - LOW) / (HIGH - LOW)
    return o

  def find(self, ask, near, spread):
    """The middle and width of the band in which the answer is to stay."""
    def edge(above, guess, width):
      at = lambda p: above(ask(self.observation(p)))
      a, b = guess - width, guess + width
      while width < 1e6 and at(a):
        width *= 4
        a = guess - width
      while width < 1e6 and not at(b):
        width *= 4
        b = guess + width
      while b - a > 1.0:
        m = (a + b) / 2
        if at(m):
          b = m
        else:
          a = m
      return (a + b) / 2
    upper = edge(lambda x: x == UP, near + BAND, spread)
    lower = edge(lambda x: x != DOWN, upper - 2 * BAND, 2.0)
    return (lower + upper) / 2, upper - lower

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.cfg = plan['cfg']
    self.all_z, self.starts = [], []
    made = []
    for i, seed in enumerate(self.cfg['seeds']):
      clock.CLOCK.jump(core.derive('gap', self.cfg['salt'], i) % 1000 + 1)
      now = clock.CLOCK.now
      made.append({'real': self.walk(3, (1099,), seed=seed), 'seed': seed,
                   'i': i, 'begun': now, 'path': [], 'k': None,
                   'target': None,
                   'double': seed is not None and
                             seed in self.cfg['seeds'][:i]})
    for n, op in enumerate(plan['ops']):
      getattr(self, 'op_' + op[0])(ctx, made, *op[1:], n=n)
    for m in made:
      self.twin(ctx, m)
    self.compare(ctx, made)
    self.distribution(ctx)

  def decide(self, ctx, m, call, offset, n, what):
    """One decision; call(agent, observation) makes it."""
    def ask(o):
      return int(call(copy.deepcopy(m['real']), o))
    k = m['k']
    target, width = self.find(ask, m['target'] if k else 8950.0,
                              4 * SPREAD * k if k else 2500.0)
    ctx.check(abs(width - 2 * BAND) < 4.0, 'wrong-band', lambda:
              f'{what}: stays within {width:.0f} Pa, the band is '
              f'{2 * BAND:.0f} Pa wide')
    p = target + offset if offset is not None else (
        LOW + (HIGH - LOW) * (core.derive('p', self.cfg['salt'], n) % 4096) /
        4096)
    got = int(call(m['real'], self.observation(p, n)))
    if abs(abs(p - target) - BAND) > 3.0:
      want = (UP if p - BAND > target else DOWN if p + BAND < target else STAY)
      ctx.check(got == want, 'wrong-way', lambda: f'{what}: at {p:.0f} Pa with '
                f'target {target:.0f} Pa the action is {got}, not {want}')
    ctx.probe('target')
    ctx.state('decide', m['k'] and min(m['k'], 5), got,
              offset is None or abs(offset) > 100)
    ctx.log(m['i'], m['k'], round(target), got)
    return target

  def op_begin(self, ctx, made, i, offset, n):
    m = made[i]
    m['k'] = 0
    t = self.decide(ctx, m, lambda a, o: a.begin_episode(o), offset, n,
                    f'agent {i}, first step')
    ctx.check(6500 - 2 <= t <= 11400 + 2, 'target-out-of-range', lambda:
              f'agent {i}: an episode starts with target {t:.0f} Pa')
    m['target'] = t
    m['path'].append(('begin', t))
    if not m['double']:
      self.starts.append(t)

  def op_step(self, ctx, made, i, offset, reward, n):
    m = made[i]
    if m['k'] is None:
      return
    m['k'] += 1
    t = self.decide(ctx, m, lambda a, o: a.step(reward, o), offset, n,
                    f'agent {i}, step {m["k"]}')
    z = (t - m['target']) / (SPREAD * m['k'])
    ctx.check(abs(z) < 6.5 + 2 / SPREAD, 'wild-step', lambda: f'agent {i}: the '
              f'target moves by {t - m["target"]:.0f} Pa at step {m["k"]}, '
              f'{z:.1f} standard deviations')
    if not m['double']:
      self.all_z.append(z)
    ctx.sim_seconds += 180
    m['target'] = t
    m['path'].append(('step', t))

  def op_end(self, ctx, made, i, terminal, n):
    made[i]['real'].end_episode(1.0, terminal)
    made[i]['k'] = None

  def op_mode(self, ctx, made, i, mode, n):
    made[i]['real'].set_mode(mode)

  def op_random(self, ctx, made, actions, count, n):
    """Random agents: legal actions, each of them with the same chance."""
    a = self.random(actions, (1099,))
    o = self.observation(9000, n)
    got = [int(a.begin_episode(o))]
    got += [int(a.step(1.0, o)) for _ in range(count * actions)]
    a.end_episode(0.0, True)
    ctx.check(all(0 <= x < actions for x in got), 'illegal-action',
              f'{actions} actions: {got}')
    if count > 1:
      for x in range(actions):
        c = got.count(x)
        ctx.check(actions == 1 or abs(c - count) < 6 * math.sqrt(count),
                  'not-uniform', f'{actions} actions, {len(got)} decisions: '
                  f'{c} times {x}')
    ctx.probe('random_agent')
    ctx.log('random', got)

  def twin(self, ctx, m):
    """The seed determines the targets; what the agent sees does not."""
    if not m['path']:
      return
    seed = m['seed']
    if seed is None:
      clock.CLOCK.now = m['begun']
    other = self.walk(3, (1099,), seed=seed)
    last = len(m['path']) - 1
    for n, (kind, t) in enumerate(m['path']):
      if kind == 'begin':
        call = lambda a, o: a.begin_episode(o)
      else:
        call = lambda a, o: a.step(-3.0, o)
      if n in (last, last // 2):
        got, _ = self.find(lambda o: int(call(copy.deepcopy(other), o)), t, 4.0)
        ctx.check(abs(got - t) < 3, 'not-reproducible', lambda:
                  f'agent {m["i"]}, seed {seed}: target {t:.0f} Pa after {n} '
                  f'decisions, {got:.0f} Pa for a second agent that '
                  f'saw other pressures and rewards')
        ctx.probe('twin')
      call(other, self.observation(9000.0, n))

  def compare(self, ctx, made):
    for a in made:
      for b in made:
        if a['i'] >= b['i'] or not a['path'] or not b['path']:
          continue
        x, y = a['path'][0][1], b['path'][0][1]
        same = abs(x - y) < 2
        if a['seed'] == b['seed'] and a['seed'] is not None:
          ctx.check(same, 'not-reproducible',
                    f'seed {a["seed"]}: first targets {x:.0f}, {y:.0f}')
        elif len(a['path']) > 3 and len(b['path']) > 3:
          ctx.check(any(abs(p[1] - q[1]) > 3
                        for p, q in zip(a['path'], b['path'])),
                    'seed-ignored', lambda: f'seeds {a["seed"]} and '
                    f'{b["seed"]}: the same targets')

  def distribution(self, ctx):
    z = self.all_z
    n = len(z)
    if n >= 20:
      mean = sum(z) / n
      sd = math.sqrt(sum(v * v for v in z) / n)
      ctx.check(abs(mean) < 6 / math.sqrt(n), 'drift',
                lambda: f'{n} target moves: mean {mean:.2f} deviations')
      # Cube roots of chi-square variables are close to normal (6 sigma).
      h = 2 / (9 * n)
      ctx.check(abs((sd * sd)**(1 / 3) - 1 + h) < 6 * math.sqrt(h),
                'wrong-spread', lambda:
                f'{n} target moves: spread {sd:.2f} of what is documented')
      lag = sum(a * b for a, b in zip(z, z[1:])) / n
      ctx.check(abs(lag) < 8 / math.sqrt(n), 'dependent-moves',
                lambda: f'{n} target moves: correlation {lag:.2f}')
      ctx.probe('spread')
    s = self.starts
    n = len(s)
    if n >= 20:
      mean = (sum(s) / n - 8950) / (4900 / math.sqrt(12))
      sd = math.sqrt(sum((v - 8950) ** 2 for v in s) / n) / (4900 /
                                                             math.sqrt(12))
      ctx.check(abs(mean) < 6 / math.sqrt(n), 'biased-start',
                lambda: f'{n} first targets: mean off by {mean:.2f} deviations')
      # Var of x^2 for a uniform x of variance 1 is 0.8.
      ctx.check(abs(sd * sd - 1) < 6 * math.sqrt(0.8 / n), 'biased-start',
                lambda: f'{n} first targets: spread {sd:.2f} of uniform')
      ctx.probe('starts')


PROP = T14()
