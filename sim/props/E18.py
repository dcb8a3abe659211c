"""E18: every flight has one atmosphere, and it is a possible one."""
import copy
import math
import pickle

from sim import core
from sim import fields
from sim import flight
from sim.ref import physics

TOP, BOTTOM = 85000.0, -610.0


class E18(core.Prop):
  id = 'E18'
  title = 'A sampled atmosphere is physical, consistent and fixed until reset'
  rule = ('seeded histories of resets, look-ups by height and by pressure '
          '(in range, at the layer boundaries and out of range), copies, saves '
          'and restores of several atmospheres, and flights that share one; '
          'every answer is compared with the hydrostatic equation, the '
          'reference profile, the inverse look-up and a new atmosphere of the '
          'same key; non-trivial: at least 20 look-ups and one replayed key')
  technique = ('seeded histories of resets, look-ups, failed look-ups, copies '
               'and flights, against a reference profile and new atmospheres')
  runs = {'quick': 500, 'thorough': 20000}
  real = ['Atmosphere', 'BalloonArena and everything below (in a share of the '
          'runs)']
  stub = ['a synthetic wind field and feature constructor in the flights']
  assumptions = ['layers and ranges of lapse rates as documented']

  def setup(self):
    flight.Lib.load()
    fields.classes()
    import jax
    from balloon_learning_environment.env.balloon import standard_atmosphere
    self.jax, self.Atmosphere = jax, standard_atmosphere.Atmosphere
    self.Plain = flight.plain_features()

  # -- plans ---------------------------------------------------------------

  def generate(self, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    keys = [rng.choice([0, rng.randrange(2**31), rng.randrange(2**31)])
            for _ in range(n)]

    def height():
      r = rng.random()
      if r < 0.45:
        return round(rng.uniform(14000, 21500), 2)
      if r < 0.75:
        return round(rng.uniform(BOTTOM, TOP - 1), 3)
      if r < 0.95:
        return rng.choice(physics.Atmosphere.H[:-1]) + rng.choice(
            [0.0, 0.0, 1e-6, -1e-6, 1.0, -1.0])
      return rng.choice([TOP - 1e-6, BOTTOM, 0.0])
    ops = []
    for _ in range(rng.randint(20, 90)):
      i, r = rng.randrange(n), rng.random()
      if r < 0.4:
        ops.append(['height', i, height()])
      elif r < 0.7:
        ops.append(['pressure', i, height()])
      elif r < 0.78:
        ops.append(['bad', i, rng.choice(['high', 'low', 'thin', 'dense',
                                          'nan', 'zero'])])
      elif r < 0.88:
        ops.append(['reset', i, rng.choice([0, rng.randrange(2**31),
                                            rng.choice(keys)])])
      elif r < 0.93:
        ops.append([rng.choice(['copy', 'pickle', 'new']), i])
      elif r < 0.97:
        ops.append(['scribble', i, height()])
      else:
        ops.append(['sample', i, rng.randrange(2**31)])
    cfg = {'keys': keys, 'flight': None}
    if rng.random() < 0.3:
      cfg['flight'] = [rng.randrange(2**31), rng.choice(['simple', 'grid'])]
      for _ in range(rng.randint(2, 8)):
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([
            ['fly', ''.join(rng.choice('dsu') for _ in range(rng.choice(
                [1, 3, 10])))], ['fly', 'uuuuu'], ['fly', 'ddddd'],
            ['begin', rng.randrange(2**31)]]))
    return {'cfg': cfg, 'ops': ops}

  def shrink(self, plan):
    if plan['cfg']['flight']:
      q = copy.deepcopy(plan)
      q['cfg']['flight'] = None
      yield q

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('asked', 0) >= 20 and ctx.probes.get('replayed', 0) > 0

  # -- execution -----------------------------------------------------------

  def key(self, n):
    return self.jax.random.PRNGKey(n)

  def execute(self, plan, ctx):
    self.subjects = []
    for k in plan['cfg']['keys']:
      self.subjects.append(self.subject(ctx, self.Atmosphere(self.key(k)), k))
    self.arena = None
    if plan['cfg']['flight']:
      seed, kind = plan['cfg']['flight']
      self.arena = flight.Lib.balloon_arena.BalloonArena(
          self.Plain, fields.make(kind, 10.0), seed=seed)
      self.aloft = self.subject(ctx, self.of_flight(), None)
    for op in plan['ops']:
      if op[0] in ('fly', 'begin'):
        if self.arena is not None:
          getattr(self, 'op_' + op[0])(ctx, *op[1:])
      elif op[1] < len(self.subjects):
        s = self.subjects[op[1]]
        getattr(self, 'op_' + op[0])(ctx, s, *op[2:])
        ctx.log(op[0], op[1], s['key'], s['n'])
        ctx.state(op[0], self.layer(op[2]) if op[0] in ('height', 'pressure')
                  else op[-1] if op[0] == 'bad' else '', s['n'] > 0)
    for s in self.subjects:
      self.replay(ctx, s)

  def of_flight(self):
    return self.arena.get_simulator_state().atmosphere

  def layer(self, h):
    return sum(h >= x for x in physics.Atmosphere.H)

  def subject(self, ctx, atm, key):
    u = flight.Lib.units
    # The profile is known from one look-up in the lowest layer.
    ref = physics.Atmosphere.of(atm, u)
    ctx.check(-1e-9 <= ref.alpha <= 1 + 1e-9, 'impossible-profile',
              f'key {key}: {ref.alpha} of the way between the documented '
              'profiles')
    return {'atm': atm, 'key': key, 'ref': ref, 'n': 0, 'asked': []}

  def judge(self, ctx, s, v, what):
    """A set of values that belong together."""
    h, ref = v.height.meters, s['ref']
    t, p, d = float(v.temperature), float(v.pressure), float(v.density)
    ctx.check(all(math.isfinite(x) for x in (h, t, p, d)) and
              min(t, p, d) > 0, 'impossible-values', f'{what}: {v}')
    ctx.check(abs(d - p / (physics.R_AIR * t)) <= 1e-9 * d, 'gas-law',
              f'{what}: density {d} at {p} Pa, {t} K')
    i = max(k for k in range(7) if h >= ref.H[k] - 1e-4)
    want_t = ref.T[i] + ref.L[i] * (h - ref.H[i])
    ctx.check(abs(t - want_t) < 1e-5, 'temperature', lambda:
              f'{what}: {t} K, the lapse rates give {want_t} K')
    want_p = ref.pressure_at(min(max(h, BOTTOM), TOP - 1e-7))
    ctx.check(abs(p - want_p) < 1e-7 * want_p, 'pressure', lambda:
              f'{what}: {p} Pa, the reference {want_p} Pa')
    return h, t, p, d

  def at_height(self, ctx, s, h):
    u = flight.Lib.units
    v = s['atm'].at_height(u.Distance(m=h))
    s['n'] += 1
    ctx.probe('asked')
    return v

  def op_height(self, ctx, s, h):
    h = min(max(h, BOTTOM), TOP - 1e-6)
    what = f'key {s["key"]}, at height {h}'
    v = self.at_height(ctx, s, h)
    got, t, p, _ = self.judge(ctx, s, v, what)
    ctx.check(abs(got - h) < 1e-6, 'height', f'{what}: {got}')
    s['asked'].append(('h', h, t, p))
    again = self.at_height(ctx, s, h)
    ctx.check((again.temperature, again.pressure, again.density) ==
              (v.temperature, v.pressure, v.density), 'asked-twice',
              f'{what}: another answer the second time')
    # Hydrostatic equilibrium over one metre.
    q = min(h + 1.0, TOP - 1e-6)
    w = self.at_height(ctx, s, q)
    if q > h:
      ctx.check(w.pressure < p, 'not-decreasing', f'{what}: {p} Pa; '
                f'{w.pressure} Pa at {q}')
      slope = math.log(float(w.pressure) / p) / (q - h)
      want = -physics.G / physics.R_AIR / ((t + float(w.temperature)) / 2)
      mid = self.at_height(ctx, s, (h + q) / 2).temperature
      if abs(float(mid) - (t + float(w.temperature)) / 2) > 1e-6:
        ctx.probe('layers_meet')        # between h and q
      elif q - h > 0.5:
        ctx.check(abs(slope - want) < 1e-6 * abs(want) + 1e-9, 'hydrostatic',
                  f'{what}: d ln p / dh = {slope}, {want} expected')
    # And back again.
    b = s['atm'].at_pressure(v.pressure) if (
        BOTTOM + 1e-3 < h < TOP - 1e-2) else None
    if b is not None:
      ctx.check(abs(b.height.meters - h) < 1e-3, 'not-inverse', lambda:
                f'{what}: the pressure belongs to {b.height.meters} m')

  def op_pressure(self, ctx, s, h):
    h = min(max(h, BOTTOM + 1e-4), TOP - 0.1)
    p = s['ref'].pressure_at(h)
    what = f'key {s["key"]}, at {p} Pa'
    v = s['atm'].at_pressure(p)
    ctx.probe('asked')
    s['n'] += 1
    got, t, q, _ = self.judge(ctx, s, v, what)
    ctx.check(q == p, 'pressure', f'{what}: {q}')
    ctx.check(abs(got - h) < 1e-3, 'height', f'{what}: {got} m, not {h} m')
    s['asked'].append(('p', p, t, got))
    again = s['atm'].at_pressure(p)
    ctx.check((again.temperature, again.height.meters, again.density) ==
              (v.temperature, v.height.meters, v.density), 'asked-twice',
              f'{what}: another answer the second time')
    less = s['atm'].at_pressure(p * (1 - 1e-6))
    ctx.check(less.height.meters > got, 'not-decreasing',
              f'{what}: {got} m; {less.height.meters} m at less pressure')

  def op_bad(self, ctx, s, kind):
    """Out of the range of the model: refused, without a trace."""
    u = flight.Lib.units
    top = s['ref'].P[-1]
    call = {
        'high': lambda: s['atm'].at_height(u.Distance(m=TOP + 0.5)),
        'low': lambda: s['atm'].at_height(u.Distance(m=BOTTOM - 0.5)),
        'nan': lambda: s['atm'].at_height(u.Distance(m=math.nan)),
        'thin': lambda: s['atm'].at_pressure(top * 0.999),
        'dense': lambda: s['atm'].at_pressure(s['ref'].P[0] * 1.001),
        'zero': lambda: s['atm'].at_pressure(0.0)}[kind]
    try:
      v = call()
    except (AssertionError, ValueError):
      ctx.fault('out_of_range')
      s['n'] += 1
      return
    ctx.check(False, 'not-refused', f'{kind}: {v}')

  def op_reset(self, ctx, s, key):
    self.replay(ctx, s)
    s['atm'].reset(self.key(key))
    s.update(self.subject(ctx, s['atm'], key))
    s['n'] = 1

  def op_copy(self, ctx, s):
    old, s['atm'] = s['atm'], copy.deepcopy(s['atm'])
    old.reset(self.key(12345))
    ctx.fault('copy')

  def op_pickle(self, ctx, s):
    old, s['atm'] = s['atm'], pickle.loads(pickle.dumps(s['atm']))
    old.reset(self.key(54321))
    ctx.fault('restore')

  def op_new(self, ctx, s):
    """Another atmosphere comes into being (and is used)."""
    other = self.Atmosphere(self.key(s['n'] + 7))
    other.at_pressure(9000.0)

  def op_scribble(self, ctx, s, h):
    """An answer belongs to who asked."""
    h = min(max(h, BOTTOM), TOP - 1e-6)
    v = self.at_height(ctx, s, h)
    keep = v.temperature, v.pressure
    v.temperature, v.pressure = 1.0, 2.0
    v.height = flight.Lib.units.Distance(m=3.0)
    w = self.at_height(ctx, s, h)
    ctx.check((w.temperature, w.pressure) == keep and
              abs(w.height.meters - h) < 1e-6, 'scribbled',
              f'the answer for {h} m was changed through an earlier one')

  def op_sample(self, ctx, s, salt):
    """Atmospheres differ from key to key, over the whole range."""
    keys = self.jax.random.split(self.key(salt), 60)
    alphas = [physics.Atmosphere.of(self.Atmosphere(k), flight.Lib.units).alpha
              for k in keys]
    ctx.check(len({round(a, 9) for a in alphas}) >= 55, 'not-sampled',
              f'{len(set(alphas))} different atmospheres of 60')
    mean = sum(alphas) / 60
    ctx.check(abs(mean - 0.5) < 0.27 and min(alphas) >= 0 and max(alphas) <= 1
              and min(alphas) < 0.4 and max(alphas) > 0.6, 'not-sampled',
              f'from {min(alphas)} to {max(alphas)}, {mean} on average')
    ctx.probe('sampled')

  def replay(self, ctx, s):
    """The atmosphere is that of its key, whatever came before."""
    if s['key'] is None or not s['asked']:
      return
    new = self.Atmosphere(self.key(s['key']))
    ctx.probe('replayed')
    for kind, x, t, other in s['asked']:
      if kind == 'h':
        v = new.at_height(flight.Lib.units.Distance(m=x))
        got = float(v.temperature), float(v.pressure)
      else:
        v = new.at_pressure(x)
        got = float(v.temperature), v.height.meters
      ctx.check(got == (t, other), 'not-the-key', lambda:
                f'key {s["key"]}: {kind} {x} was {(t, other)}, a new '
                f'atmosphere has {got}')

  # -- flights ---------------------------------------------------------------

  def fingerprint(self, atm):
    return [(float(atm.at_pressure(p).temperature),
             atm.at_pressure(p).height.meters)
            for p in (5500.0, 8000.0, 11000.0, 14000.0, 60000.0)]

  def op_fly(self, ctx, letters):
    before = self.fingerprint(self.of_flight())
    for letter in letters:
      if self.arena.get_balloon_state().status.name != 'OK':
        return
      self.arena.step(flight.command(letter))
      ctx.sim_seconds += 180
      ctx.probe('flown')
      b = self.arena.get_balloon_state()
      v = self.of_flight().at_pressure(b.pressure)
      self.judge(ctx, self.aloft, v, f'in flight at {b.pressure} Pa')
      ctx.log('fly', letter, round(b.pressure, 3), round(v.height.meters, 2))
    ctx.check(self.fingerprint(self.of_flight()) == before, 'changed-in-flight',
              'the atmosphere changed during the flight')

  def op_begin(self, ctx, seed):
    before = self.fingerprint(self.of_flight())
    self.arena.reset(seed)
    after = self.fingerprint(self.of_flight())
    ctx.check(before != after or seed == self.aloft.get('seed'),
              'same-atmosphere', 'the next flight has the same atmosphere')
    self.arena.reset(seed)
    ctx.check(self.fingerprint(self.of_flight()) == after, 'not-the-seed',
              f'seed {seed} gave two atmospheres')
    self.aloft = self.subject(ctx, self.of_flight(), None)
    self.aloft['seed'] = seed
    ctx.probe('begun')


PROP = E18()
