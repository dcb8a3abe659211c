"""T15: the station seeker flies towards the level with the best wind."""
import math

from sim import core
from sim import flight

UP, STAY, DOWN = 2, 1, 0
LEVELS = 361
MID = 180
AMBIENT = 16


def scores(obs):
  """The documented score of every level, None where it is out of reach."""
  f = [float(x) for x in obs]
  d = f[7]
  distance = 250.0 * d / (1.0 - d) if d < 1.0 else math.inf
  ramp = min(1.0, max(0.0, (distance - 250.0) / 250.0))
  w_bearing = 0.6 + (0.45 - 0.6) * ramp
  near = math.exp(-distance / 35.0)
  out = []
  for l in range(LEVELS):
    u, b, m = f[AMBIENT + 3 * l:AMBIENT + 3 * l + 3]
    if (u, b, m) == (0.0, 1.0, 1.0):
      out.append(None)
      continue
    speed = 30.0 * m / (1.0 - m) if m < 1.0 else math.inf
    wind = ((1.0 - near) * math.exp(-w_bearing * b * math.pi) +
            near * math.exp(-0.07 * speed))
    out.append((1.0 - u + 0.01) * wind + 0.5 * u +
               0.05 * math.exp(-0.001 * abs(l - MID)))
  return out


def allowed(obs):
  """The actions towards a best level (rounding may decide between equals)."""
  s = scores(obs)
  best = max(x for x in s if x is not None)
  good = [l for l, x in enumerate(s) if x is not None and x >= best - 2e-6]
  return {UP if l < MID else DOWN if l > MID else STAY for l in good}, good


class T15(flight.FlightProp):
  id = 'T15'
  title = 'The station seeker flies towards the level with the best wind'
  rule = ('seeded flights of the real environment in which the agent decides, '
          'with disturbances (teleports, other pressures, battery, clock) and '
          'stretches in which the simulator acts instead, and scripted wind '
          'columns of any reachable range, uncertainty, calm and stormy winds '
          'and ties, at any distance; every decision is compared with a '
          'reference score and with a fresh agent; non-trivial: at least ten '
          'decisions')
  technique = ('seeded closed-loop flights with disturbances against a '
               'reference scoring of every observation')
  runs = {'quick': 130, 'thorough': 6000}
  levels = ('env',)
  stub_features = False
  kinds = ('battery', 'clock', 'teleport', 'teleport', 'pressure',
           'infrared', 'heat', 'safety_off')
  steps_per_op = 12
  real = ['StationSeekerAgent', 'NamedPerciatelliFeatures', 'BalloonEnv with '
          'its features, wind estimates, physics and safety layers']

  def setup(self):
    super().setup()
    from balloon_learning_environment.agents import agent_registry
    from balloon_learning_environment.agents import station_seeker_agent
    self.cls = station_seeker_agent.StationSeekerAgent

  def generate(self, rng, tier):
    cfg = flight.draw_cfg(rng, 'env', self.fields_)
    ops = []
    r = rng.random()
    if r < 0.35:
      for _ in range(rng.randint(6, 20)):
        ops.append(self.column(rng))
      return {'cfg': dict(cfg, features='stub'), 'ops': ops}
    left = rng.randint(20, 90)
    while left > 0:
      r = rng.random()
      if r < 0.4:
        ops.append(self.draw_fault(rng))
      elif r > 0.97:
        ops.append(rng.choice([['reset'], ['seed', rng.randrange(2**31)]]))
      elif r > 0.85:
        ops.append(self.column(rng))
      k = min(left, rng.randint(1, self.steps_per_op))
      ops.append(['act', flight.draw_actions(rng, k)] if rng.random() < 0.25
                 else ['fly', k])
      left -= k
    return {'cfg': cfg, 'ops': ops}

  def directed(self):
    """Undisturbed flights in worlds where the station can be reached."""
    import random
    out = []
    for seed in range(4):
      rng = random.Random(seed)
      cfg = flight.draw_cfg(rng, 'env', self.fields_)
      cfg.update(field='layers', speed=rng.choice([8.0, 12.0]),
                 power_safety=True)
      ops = []
      for _ in range(6):
        th, d = rng.uniform(0, 2 * math.pi), rng.uniform(100e3, 160e3)
        ops += [['seed', rng.randrange(2**31)],
                ['fault', 'teleport', d * math.cos(th), d * math.sin(th)],
                ['reach', 75e3, 240]]
      out.append({'cfg': cfg, 'ops': ops})
    return out

  def column(self, rng):
    kind = rng.choice(['any', 'any', 'calm', 'ties', 'unknown', 'single',
                       'opposite', 'near', 'edge', 'edge', 'extreme'])
    return ['column', kind, rng.choice([0.0, 1e-4, 0.05, 0.2, 0.5, 0.6, 0.7,
                                        0.95, rng.random()]),
            rng.randrange(2**31), rng.choice(['begin', 'step'])]

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'fly' and op[1] > 1:
        for k in (op[1] // 2, op[1] - 1):
          yield dict(plan, ops=plan['ops'][:i] + [['fly', k]] +
                     plan['ops'][i + 1:])
    yield from super().shrink(plan)

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('decision', 0) >= 6

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.agent = self.cls(3, (1099,))
    self.first = True
    self.reached = []
    super().execute(plan, ctx)
    # The controller is a good one, not a perfect one.
    n = len(self.reached)
    ctx.check(n < 6 or sum(self.reached) >= 4, 'never-arrives', lambda:
              f'{sum(self.reached)} of {n} undisturbed flights came near the '
              f'station')

  def begin(self, w, ctx):
    self.first = True

  def decide(self, ctx, obs, first, reward, what):
    np = flight.Lib.np
    before = obs.copy()
    got = (self.agent.begin_episode(obs) if first
           else self.agent.step(reward, obs))
    ctx.check(np.array_equal(before, obs), 'observation-changed', what)
    want, good = allowed(before)
    ctx.check(int(got) in want, 'wrong-way', lambda:
              f'{what}: action {int(got)}; the best levels are {good[:5]}, '
              f'the balloon is at level {MID}')
    other = self.cls(3, (1099,))
    again = other.step(-7.0, obs) if first else other.begin_episode(obs)
    ctx.check(int(again) == int(got), 'history-dependent', lambda:
              f'{what}: action {int(got)}, a new agent does {int(again)}')
    ctx.probe('decision')
    ctx.probe(f'action:{int(got)}')
    ctx.state('decide', int(got), len(want), good[0] // 20)
    ctx.log('decide', int(got))
    return int(got)

  def run_op(self, w, ctx, op):
    if op[0] == 'fly':
      for _ in range(op[1]):
        self.fly(w, ctx)
    elif op[0] == 'reach':
      for _ in range(op[2]):
        self.fly(w, ctx)
        n = flight.numbers(w.state)
        if math.hypot(n['x'], n['y']) < op[1]:
          ctx.probe('arrived')
          self.reached.append(True)
          return
      self.reached.append(False)
    elif op[0] == 'column':
      self.op_column(ctx, *op[1:])
    else:
      super().run_op(w, ctx, op)

  def fly(self, w, ctx):
    if w.terminal:
      self.agent.end_episode(0.0, True)
      w.reset()
      self.begin(w, ctx)
    a = self.decide(ctx, w.obs, self.first, w.reward, f'flight, step {w.steps}')
    self.first = False
    w.step('dsu'[a])
    ctx.log('step', flight.numbers(w.state)['pressure'], w.reward)

  def op_column(self, ctx, kind, distance, seed, how):
    """A wind column nobody may ever have flown in."""
    np = flight.Lib.np
    r = np.random.RandomState(seed % 2**32)
    o = r.uniform(0, 1, 1099).astype(np.float32)
    o[7] = distance
    # What the balloon can reach is a range around it: 181 levels, some of
    # them beyond its own limits.
    lo = r.randint(0, 181)
    hi = lo + 180
    lo, hi = max(lo, MID - r.randint(0, 181)), min(hi, MID + r.randint(0, 181))
    w = np.zeros((LEVELS, 3), np.float32)
    w[:] = (0.0, 1.0, 1.0)
    if kind == 'edge':
      lo = r.choice([0, 180])
      hi = lo + 180
    n = hi - lo + 1
    v = np.stack([r.uniform(0, 1, n), r.uniform(0, 1, n),
                  r.uniform(0, 0.7, n)], axis=1)
    if kind == 'calm':
      v[:, 2] *= 0.01
      v[:, 0] *= 0.01
    elif kind == 'ties':
      v[:] = v[0]
    elif kind == 'unknown':
      v[:, 0] = 1.0
    elif kind == 'opposite':
      v[:, 1] = r.choice([0.0, 1.0], n)
      v[:, 0] = 0.05
    elif kind == 'edge':
      # The end of the column, or its neighbour, is the place to be.
      v[:] = (0.1, 0.6, 0.3)
      v[0 if lo == 0 else n - 1] = (0.1, 0.1, 0.1)
      if r.randint(2):
        v[r.randint(n)] = (0.1, 0.12, 0.11)
    elif kind == 'extreme':
      v[:, 0] = r.choice([0.0, 1.0], n)
      v[:, 1] = r.choice([0.0, 1.0, 1.0], n)
      v[:, 2] = r.choice([0.0, 0.5, 0.99], n)
    elif kind == 'near':
      v[:, :] = v[0] + r.uniform(-0.003, 0.003, (n, 3))
      v = np.clip(v, 0, 0.99)
    w[lo:hi + 1] = v
    if kind == 'single':
      w[:] = (0.0, 1.0, 1.0)
      w[r.randint(lo, hi + 1)] = v[0]
    o[AMBIENT:] = w.reshape(-1)
    ctx.fault('column_' + kind)
    self.decide(ctx, o, how == 'begin', 1.0, f'column {kind}')


PROP = T15()
