"""E15: every reset starts a fresh, stable and valid flight."""
import datetime as dt
import math

from sim import core
from sim import flight
from sim.ref import physics


def beta_cdf(x):
  """Distribution function of Beta(1.2, 2)."""
  # The density is proportional to x**0.2 * (1 - x).
  x = min(max(x, 0.0), 1.0)
  return (x**1.2 / 1.2 - x**2.2 / 2.2) / (1 / 1.2 - 1 / 2.2)


class E15(core.Prop):
  id = 'E15'
  title = 'Every reset starts a fresh, stable and valid flight'
  rule = ('seeded sequences of dirty flights (with injected disturbances, '
          'failures and long clock jumps) and resets; every start is checked '
          'against the documented ranges and equilibria, and is flown in '
          'parallel with a new environment brought to the same reset without '
          'the dirt; non-trivial: at least 3 resets')
  technique = ('seeded histories with injected disturbances before each reset, '
               'against a new environment and a reference equilibrium')
  runs = {'quick': 96, 'thorough': 4000}
  real = ['BalloonEnv, BalloonArena, sampling, stable_init, atmosphere, wind '
          'fields, noise, features, WindGP, safety layers']
  stub = ['wind decoder weights', 'renderer (records the calls it gets)']

  def setup(self):
    flight.Lib.load()
    from sim import fields
    fields.classes()
    from balloon_learning_environment.env.rendering import renderer

    class Recorder(renderer.Renderer):

      def __init__(self):
        self.calls = []

      def reset(self):
        self.calls.append('reset')

      def step(self, state):
        b = state.balloon_state
        self.calls.append(('step', b.x.meters, b.time_elapsed.total_seconds()))

      def render(self, mode, summary_writer=None, iteration=None):
        self.calls.append('render:' + mode)
        return 'frame'

      @property
      def render_modes(self):
        return ['ansi']

    self.Recorder = Recorder

  def generate(self, rng, tier):
    if rng.random() < 0.05:
      # Many starts, one after another.
      return {'cfg': {'spread': rng.randrange(2**31), 'gap': rng.choice(
          [0, 0, 1])}, 'ops': [['starts', 100] for _ in range(5)]}
    cfg = flight.draw_cfg(rng, 'env')
    cfg['power_safety'] = True
    cfg['renderer'] = rng.random() < 0.7
    if rng.random() < 0.5:
      cfg['features'] = 'stub'
    ops = []
    for _ in range(rng.randint(4, 10 if tier == 'quick' else 25)):
      for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < 0.6:
          # Flights that end by failing among them.
          ops.append(['fault', 'battery', 0.0005] if rng.random() < 0.2 else
                     flight.draw_fault(rng, (
                         'battery', 'clock', 'clock', 'teleport', 'pressure',
                         'superpressure', 'infrared', 'heat', 'safety_off',
                         'air_fill')))
        ops.append(['act', flight.draw_actions(rng, rng.choice([1, 3, 10, 25]))])
      if rng.random() < 0.2:
        ops.append(['render'])
      ops.append(['reset', rng.choice([None, None, rng.randrange(2**31),
                                       rng.randrange(6)]),
                  rng.random() < 0.3, rng.choice([0, 0, 2, 6])])
    return {'cfg': cfg, 'ops': ops}

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    if 'spread' in cfg:
      self.spread(plan, ctx)
      return
    r = self.Recorder() if cfg['renderer'] else None
    w = flight.World(cfg, ctx, renderer=r)
    self.resets = 0
    self.seen = {}
    seed, k = cfg['seed'], 0
    if r:
      ctx.check(r.calls[-2:] == ['reset', self.shot(w)], 'renderer',
                lambda: str(r.calls[-4:]))
    self.judge(plan, ctx, w, seed, k, 2)
    for op in plan['ops']:
      if op[0] == 'act':
        for letter in op[1]:
          if not w.terminal:
            w.step(letter)
            if r:
              ctx.check(r.calls[-1] == self.shot(w), 'renderer-not-stepped',
                        lambda: str(r.calls[-3:]))
        if w.terminal:
          ctx.probe('failed_flight')
      elif op[0] == 'fault':
        if not w.terminal:
          w.inject(op[1], op[2:])
      elif op[0] == 'render':
        got = w.env.render('ansi')
        ctx.check(got == ('frame' if r else None), 'render', repr(got))
      elif op[0] == 'reset':
        _, new, info, fly = op
        seed, k = (new, 0) if new is not None else (seed, k + 1)
        n = len(r.calls) if r else 0
        kw = {} if new is None else {'seed': new}
        if info:
          w.obs, got = w.env.reset(return_info=True, **kw)
          ctx.check(got == {'out_of_power': False, 'envelope_burst': False,
                            'zeropressure': False,
                            'time_elapsed': dt.timedelta(0)}, 'reset-info',
                    lambda: str(got))
        else:
          w.obs = w.env.reset(**kw)
        w.terminal, w.reward, w.info = False, None, None
        ctx.fault('reset_seeded' if new is not None else 'reset')
        if r:
          ctx.check(r.calls[n:] == ['reset', self.shot(w)], 'renderer',
                    lambda: str(r.calls[n:n + 4]))
        self.judge(plan, ctx, w, seed, k, fly)

  # -- the starts as a whole -------------------------------------------------

  def spread(self, plan, ctx):
    L, cfg = flight.Lib, plan['cfg']
    from sim import fields
    arena = L.balloon_arena.BalloonArena(flight.plain_features(), fields.make(
        'simple', 5.0), seed=cfg['spread'])
    values = {k: [] for k in ('distance', 'direction', 'latitude', 'longitude',
                              'date', 'hour', 'pressure', 'profile')}
    infrared = []
    self.resets = 0
    key = L.jax.random.PRNGKey(cfg['spread'])
    begin = L.units.datetime(2011, 1, 1)
    for op in plan['ops']:
      for _ in range(op[1]):
        key, sub = L.jax.random.split(key)
        arena.reset(sub)
        for _ in range(cfg['gap']):
          arena.step(flight.command('s'))
          arena.reset(sub)
        self.resets += 1
        n = flight.numbers(arena.get_balloon_state())
        atm = physics.Atmosphere.of(arena.get_simulator_state().atmosphere,
                                    L.units)
        days = (n['date_time'] - begin).total_seconds() / 86400.0
        p_max = atm.pressure_at(50000 * physics.FT)
        for k, v in (
            ('distance', beta_cdf(math.hypot(n['x'], n['y']) / 200e3)),
            ('direction', math.atan2(n['y'], n['x']) / (2 * math.pi) % 1.0),
            ('latitude', (math.degrees(n['clat']) + 10) / 20),
            ('longitude', (math.degrees(n['clng']) + 175) / 350),
            ('date', days / 1460.0), ('hour', days % 1.0),
            ('pressure', (n['pressure'] - 6500.0) / (p_max - 6500.0)),
            ('profile', atm.alpha)):
          values[k].append(v)
        infrared.append(n['ir'])
      ctx.log('starts', self.resets, [round(v[-1], 5) for v in values.values()])
    ctx.probe('spread')
    n = self.resets
    if n < 400:
      return
    # Each is distributed as documented (Kolmogorov-Smirnov, 1e-9) ...
    for k, v in values.items():
      v = sorted(v)
      d = max(max((i + 1) / n - x, x - i / n) for i, x in enumerate(v))
      ctx.check(d < 3.3 / math.sqrt(n), 'spread:' + k, lambda:
                f'{n} starts: the distribution of the {k} is off by {d}')
      ctx.check(v[0] < 0.05 and v[-1] > 0.95, 'spread:' + k, lambda:
                f'{n} starts: the {k} covers {v[0]} to {v[-1]} of its range')
    # ... and independent of the others (rank correlation, six sigma).
    ranks = {k: {i: r for r, i in enumerate(sorted(range(n),
                                                   key=v.__getitem__))}
             for k, v in values.items()}
    names = sorted(ranks)
    for a in names:
      for b in names:
        if a < b and {a, b} != {'date', 'hour'}:
          d2 = sum((ranks[a][i] - ranks[b][i])**2 for i in range(n))
          rho = 1 - 6.0 * d2 / (n * (n * n - 1.0))
          ctx.check(abs(rho) < 6.5 / math.sqrt(n), 'spread:dependent', lambda:
                    f'{n} starts: {a} and {b} have rank correlation {rho}')
    most = max(infrared.count(v) for v in set(infrared))
    if most > 0.5 * n:
      v = max(set(infrared), key=infrared.count)
      msg = f'{most} of {n} starts have the same infrared, {v}'
      if abs(v - 315.0) < 1e-3:
        ctx.finding('E15-infrared', 'spread:infrared', msg)
      else:
        ctx.check(False, 'spread:infrared', msg)

  def shot(self, w):
    b = w.state
    return ('step', b.x.meters, b.time_elapsed.total_seconds())

  def judge(self, plan, ctx, w, seed, k, fly):
    self.resets += 1
    self.valid(ctx, w)
    n = flight.numbers(w.state)
    start = (n['x'], n['y'], n['pressure'], n['clat'], n['clng'], n['ir'],
             n['date_time'])
    atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)
    weather = self.weather(w)
    for key, (s, a, we) in self.seen.items():
      if key == (seed, k):
        ctx.check(s == start and a == atm.alpha and we == weather,
                  'same-seed-other-start', lambda: f'{key}: {s} {start}')
      else:
        # The infrared is left out: nearly all samples are the largest value.
        same = [i for i in range(len(s)) if s[i] == start[i] and i != 5]
        ctx.check(not same, 'start-repeated',
                  lambda: f'{key} and {(seed, k)} share {same} of {start}')
        ctx.check(a != atm.alpha, 'atmosphere-repeated', str(a))
        ctx.check(we != weather, 'weather-repeated', str(we))
    self.seen[(seed, k)] = (start, atm.alpha, weather)
    ctx.log('start', seed, k, start, w.obs)
    ctx.state('start', int(math.hypot(start[0], start[1]) // 2e4),
              int(start[2] // 400), n['date_time'].hour, n['date_time'].year)
    # The same reset of an environment without a past.
    ctx.probe('twin')
    t = flight.World(dict(plan['cfg'], seed=seed), ctx)
    for _ in range(k):
      t.obs = t.env.reset()
    self.same(ctx, w, t, 'something-survived-reset')
    r = core.prng('fly', seed, k)
    for _ in range(fly):
      if w.terminal:
        break
      letter = r.choice('dddsu')
      w.step(letter)
      t.step(letter)
      ctx.check(w.reward == t.reward and w.terminal == t.terminal,
                'something-survived-reset', 'reward or terminal')
      self.same(ctx, w, t, 'something-survived-reset')

  def weather(self, w):
    u = flight.Lib.units
    return tuple(
        g.meters_per_second for h in (0, 30) for p in (7000.0, 11000.0)
        for wind in [w.wind_field.get_ground_truth(
            u.Distance(km=50), u.Distance(km=-70), p, dt.timedelta(hours=h))]
        for g in (wind.u, wind.v))

  def same(self, ctx, w, t, klass):
    a, b = flight.numbers(w.state), flight.numbers(t.state)
    ctx.check(a == b, klass, lambda: str(
        [(k, a[k], b[k]) for k in a if a[k] != b[k]])[:600])
    ctx.check(bool(w.state.navigation_is_paused) ==
              bool(t.state.navigation_is_paused), klass, 'paused')
    np = flight.Lib.np
    ctx.check(np.array_equal(w.obs, t.obs), klass + ':observation', lambda: str(
        [(int(i), float(w.obs[i]), float(t.obs[i]))
         for i in np.flatnonzero(w.obs != t.obs)[:8]]))

  def valid(self, ctx, w):
    b, n = w.state, flight.numbers(w.state)
    u = flight.Lib.units
    atm = physics.Atmosphere.of(w.atmosphere, u)

    def ok(cond, klass, value):
      ctx.check(cond, 'start:' + klass, lambda: str(value))

    ok(n['status'] == 'OK', 'status', n['status'])
    ok(n['elapsed'] == 0.0, 'elapsed', n['elapsed'])
    ok(math.hypot(n['x'], n['y']) <= 200e3 * (1 + 1e-9), 'distance',
       (n['x'], n['y']))
    ok(abs(n['clat']) <= math.radians(10) + 1e-12, 'latitude', n['clat'])
    ok(abs(n['clng']) <= math.radians(175) + 1e-12, 'longitude', n['clng'])
    ok(u.datetime(2011, 1, 1) <= n['date_time'] < u.datetime(2014, 12, 31),
       'calendar', n['date_time'])
    p_max = atm.pressure_at(50000 * physics.FT)
    ok(6500.0 <= n['pressure'] <= p_max * (1 + 1e-6), 'pressure',
       (n['pressure'], p_max))
    ok(225.0 <= n['ir'] <= 315.0 * (1 + 1e-6), 'infrared', n['ir'])
    ok(flight.close(n['battery_wh'], 0.95 * n['capacity_wh'], 1e-4), 'battery',
       n['battery_wh'])
    ok(n['last'] == 'STAY', 'last-command', n['last'])
    ok(not b.navigation_is_paused, 'paused', '')
    ok(n['acs_watts'] == 0.0 and n['acs_mass_flow'] == 0.0, 'acs', n['acs_watts'])
    ok(b.power_safety_layer_enabled, 'power-safety', '')
    ok(0.0 < n['superpressure'] <= n['sp_max'], 'superpressure',
       n['superpressure'])
    ok(n['mols_air'] > 0.0 and n['mols_lift_gas'] == 6830.0, 'gas',
       (n['mols_air'], n['mols_lift_gas']))
    # Equilibria: of temperature, weight and pressure.
    t_amb = atm.at_pressure(n['pressure'])[1]
    ok(flight.close(n['ambient_temperature'], t_amb, 1e-6), 'ambient',
       (n['ambient_temperature'], t_amb))
    mass = (n['pressure'] * physics.M_AIR * n['v0'] / (physics.R * t_amb))
    weight = (n['envelope_mass'] + n['payload_mass'] + physics.M_HE *
              n['mols_lift_gas'] + physics.M_AIR * n['mols_air'])
    ok(flight.close(mass, weight, 1e-6), 'buoyancy', (mass, weight))
    lat, lng = physics.offset_latlng(n['clat'], n['clng'], n['x'], n['y'])
    ll = b.latlng
    ok(flight.close(ll.lat().radians, lat, 1e-9, 1e-9) and
       flight.close(ll.lng().radians, lng, 1e-9, 1e-9), 'latlng', (ll, lat, lng))
    el, flux = physics.sun(lat, lng, n['date_time'])
    rate = physics.heating_rate(n['v0'], n['envelope_mass'],
                                n['internal_temperature'], t_amb, n['pressure'],
                                el, flux, n['ir'])
    ok(abs(rate) < 1e-4, 'thermal', rate)
    vol, sp = physics.volume_superpressure(
        n['mols_air'] + n['mols_lift_gas'], n['internal_temperature'],
        n['pressure'], n['v0'], n['dv'])
    ok(flight.close(vol, n['envelope_volume'], 1e-6) and
       flight.close(sp, n['superpressure'], 1e-5, 1e-2), 'gas-law',
       (vol, sp, n['envelope_volume'], n['superpressure']))

  def shrink(self, plan):
    if 'spread' in plan['cfg']:
      return
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[1]) > 1:
        h = len(op[1]) // 2
        for part in (op[1][:h], op[1][h:], op[1][:-1]):
          yield dict(plan, ops=plan['ops'][:i] + [['act', part]] +
                     plan['ops'][i + 1:])
    for k, v in (('renderer', False), ('features', 'stub'), ('field', 'simple')):
      if plan['cfg'].get(k) != v:
        yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))

  def nontrivial(self, plan, ctx):
    return self.resets >= 3


PROP = E15()
