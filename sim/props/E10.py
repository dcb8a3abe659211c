"""E10: the observation always describes the vehicle as it is now."""
import copy
import math

from sim import flight
from sim.ref import observation
from sim.ref import physics


class E10(flight.FlightProp):
  id = 'E10'
  title = 'The observation always describes the vehicle as it is now'
  rule = ('seeded environment flights with disturbances and teleports; every '
          'observation is compared with a reference encoding of the state, '
          'other states are encoded by fresh feature constructors; '
          'non-trivial: more than 20 trace events and 3 abstract states')
  technique = ('seeded flights with injected disturbances against a reference '
               'encoding')
  runs = {'quick': 96, 'thorough': 3000}
  levels = ('env',)
  stub_features = False
  kinds = ('battery', 'clock', 'clock', 'teleport', 'teleport', 'pressure',
           'infrared', 'superpressure', 'heat', 'air_fill', 'safety_off')
  fault_rate = 0.8
  steps_per_op = 10
  n_steps = {'quick': 160, 'thorough': 300}

  def generate(self, rng, tier):
    plan = super().generate(rng, tier)
    for _ in range(rng.randint(4, 14)):
      th = rng.uniform(0, 2 * math.pi)
      r = rng.choice([0.0, 1e-6, 1.0, 5e4, 3e5, 6e5])
      plan['ops'].insert(rng.randrange(len(plan['ops']) + 1), [
          'probe', {
              'pressure': rng.choice([
                  rng.uniform(4000, 15000), 5000.0, 14000.0, 4999.0, 14001.0,
                  5025.5, 13974.0, rng.uniform(6000, 12000)]),
              'x': r * math.cos(th), 'y': r * math.sin(th),
              'soc': rng.choice([0.0, 0.1, 0.35, 0.45, 0.55, 0.65, 0.75, 0.992,
                                 1.0]),
              'superpressure': rng.choice([0.0, -3.0, 400.0, 900.0, 1300.0,
                                           1800.0, 2300.0]),
              'gas': rng.choice([1.0, 1.0, rng.uniform(0.8, 1.3)]),
              'limit': rng.choice([0.0, 0.0, rng.uniform(-1500.0, 600.0)]),
              'infrared': rng.choice([None, rng.uniform(100.0, 315.0)]),
              'last': rng.choice('dsu'), 'clock': rng.randrange(0, 3 * 86400)}])
    return plan

  def execute(self, plan, ctx):
    w = self.make_world(plan['cfg'], ctx)
    self.begin(w, ctx)
    for op in plan['ops']:
      if op[0] == 'probe':
        self.probe(w, ctx, op[1])
      else:
        self.run_op(w, ctx, op)

  def begin(self, w, ctx):
    self.atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)
    self.space = w.env.observation_space
    self.judge(w, ctx, w.obs, w.state, w.arena.feature_constructor)

  def after(self, w, ctx, letter, pre, _):
    n = flight.numbers(w.state)
    self.judge(w, ctx, w.obs, w.state, w.arena.feature_constructor,
               w.steps % 3 == 0 or w.terminal)
    ctx.check(flight.numbers(w.state) == n, 'reading-changed-state', '')

  def probe(self, w, ctx, p):
    """Another state, encoded by a feature constructor of its own."""
    L = flight.Lib
    u = L.units
    b = copy.deepcopy(w.state)
    b.pressure = p['pressure']
    b.x, b.y = u.Distance(m=p['x']), u.Distance(m=p['y'])
    b.battery_charge = u.Energy(
        watt_hours=p['soc'] * b.battery_capacity.watt_hours)
    b.superpressure = p['superpressure']
    b.last_command = flight.command(p['last'])
    import datetime as dt
    b.date_time = b.date_time + dt.timedelta(seconds=p['clock'])
    b.mols_lift_gas *= p['gas']
    b.envelope_max_superpressure += p['limit']
    if p['infrared'] is not None:
      b.upwelling_infrared = p['infrared']
    reach = observation.pressure_range(flight.numbers(b), self.atm)
    if reach is None or reach[2] < 0.05:
      # No level, or hardly one, is safe for this vehicle.
      ctx.probe('nowhere_safe')
      return
    if reach[3]:
      ctx.probe('range_searched')
    fc = L.features.PerciatelliFeatureConstructor(w.wind_field, w.atmosphere)
    wind = w.wind_field.get_ground_truth(b.x, b.y, b.pressure, b.time_elapsed)
    fc.observe(L.simulator_data.SimulatorObservation(
        balloon_observation=b, wind_at_balloon=wind))
    before = flight.numbers(b)
    obs = fc.get_features()
    self.judge(w, ctx, obs, b, fc)
    ctx.check(flight.numbers(b) == before, 'reading-changed-state', '')
    ctx.log('probe', p, obs)
    ctx.fault('foreign_state')

  def judge(self, w, ctx, obs, b, fc, column=True):
    np = flight.Lib.np
    n = flight.numbers(b)
    ctx.check(isinstance(obs, np.ndarray) and obs.dtype == np.float32
              and obs.shape == (observation.SIZE,)
              and self.space.shape == obs.shape, 'shape-or-type',
              f'{type(obs)} {getattr(obs, "shape", None)}')
    ctx.check(bool(np.all(np.isfinite(obs))), 'not-finite',
              lambda: str(np.flatnonzero(~np.isfinite(obs))[:10]))
    lo, hi = self.space.low, self.space.high
    out = np.flatnonzero((obs < lo - 2e-5) | (obs > hi + 2e-5))
    ctx.check(len(out) == 0, 'outside-space', lambda: str(
        [(int(i), float(obs[i])) for i in out[:5]]))
    # Ambient part.
    from balloon_learning_environment.env.balloon import solar
    rise, sett = solar.get_next_sunrise_sunset(b.latlng, b.date_time)
    want = observation.ambient(n, rise, sett, bool(b.navigation_is_paused))
    for i, x in enumerate(want):
      if x is None:
        ctx.probe('tie')
        continue
      if i in (5, 6) and math.hypot(n['x'], n['y']) < 1e-3:
        continue
      ctx.check(flight.close(float(obs[i]), x, 2e-6, 2e-6), f'ambient:{i}',
                lambda: f'feature {i} is {obs[i]!r} instead of {x!r}')
    # The same by the reference sun (its sunrise may be twenty minutes off
    # the one the code works with, finding E08-schedule-search).
    lat, lng = physics.offset_latlng(n['clat'], n['clng'], n['x'], n['y'])
    if column:
      a = observation.solar_cycle(lat, lng, n['date_time'])
      err = math.remainder(math.atan2(obs[3], obs[4]) - a, 2 * math.pi)
      ctx.check(abs(err) < 0.12, 'solar-cycle', lambda: f'off by {err} rad')
    if not column:
      return
    self.read_back(ctx, obs, b, n)
    # Reading twice.
    again = fc.get_features()
    ctx.check(np.array_equal(again, obs), 'second-reading-differs',
              lambda: str(np.flatnonzero(again != obs)[:10]))
    # Wind part.
    level, tie = observation.level_of(n['pressure'])
    if tie < 1e-6:
      ctx.probe('tie')
      return
    col = obs[16:].reshape(-1, 3)
    centre = len(col) // 2
    ctx.check(len(col) == 2 * observation.LEVELS - 1, 'column-size', '')
    rng = observation.pressure_range(n, self.atm)
    if rng is None or rng[2] < 0.05:
      ctx.probe('tie')
      return
    low, high = rng[:2]
    levels = np.linspace(observation.P_MIN, observation.P_MAX, observation.LEVELS)
    q = np.zeros((observation.LEVELS, 4))
    q[:, 0], q[:, 1], q[:, 2], q[:, 3] = n['x'], n['y'], levels, n['elapsed']
    means, dev = fc.windgp.query_batch(q)
    reach = 0
    for k in range(len(col)):
      j = k - centre + level
      p = levels[j] if 0 <= j < observation.LEVELS else None
      if p is not None and min(abs(p - low), abs(p - high)) < 0.5:
        ctx.probe('level_near_bound')
        continue
      got = [float(x) for x in col[k]]
      if p is None or p < low or p > high:
        ctx.check(got == [0.0, 1.0, 1.0], 'unreachable-not-marked',
                  lambda: f'entry {k} ({p} Pa, reachable {low}..{high}): {got}')
        continue
      reach += 1
      t = observation.wind_triple(float(means[j][0]), float(means[j][1]),
                                  float(dev[j]), n['x'], n['y'])
      for name, g, x in zip(('uncertainty', 'bearing', 'magnitude'), got, t):
        if x is None:
          continue
        # acos is steep at its ends.
        tol = 2e-5 if name != 'bearing' else 2e-3
        if name == 'bearing' and 0.05 < x < 0.95:
          tol = 2e-5
        ctx.check(abs(g - x) < tol, 'column:' + name,
                  lambda: f'{name} at {p} Pa is {g} instead of {x}')
    ctx.checks += 3 * reach
    ctx.state('column', level // 20, int(low // 250), int(high // 250), reach > 0)
    ctx.probe('column')

  def read_back(self, ctx, obs, b, n):
    """The names given to the parts of an observation."""
    L = flight.Lib
    from balloon_learning_environment.utils import transforms
    f = L.features.NamedPerciatelliFeatures(obs)
    close = flight.close
    p = min(max(n['pressure'], observation.P_MIN), observation.P_MAX)
    ctx.check(close(float(f.balloon_pressure), p, 0.02, 1e-6), 'read-back',
              lambda: f'pressure {f.balloon_pressure} instead of {p}')
    ctx.check(f.last_command == b.last_command, 'read-back',
              lambda: f'command {f.last_command} instead of {b.last_command}')
    for i, name in ((1, 'battery_charge'), (2, 'solar_elevation'),
                    (3, 'sin_normalized_solar_cycle'),
                    (4, 'cos_normalized_solar_cycle'),
                    (5, 'sin_heading_to_station'),
                    (6, 'cos_heading_to_station'), (7, 'distance_to_station'),
                    (11, 'navigation_enabled'), (12, 'navigation_paused'),
                    (13, 'has_excess_energy'), (14, 'descent_cost'),
                    (15, 'internal_pressure_ratio')):
      ctx.check(float(getattr(f, name)) == float(obs[i]), 'read-back',
                lambda: f'{name} is {getattr(f, name)}, not {obs[i]}')
    km = math.hypot(n['x'], n['y']) / 1000.0
    d = float(transforms.undo_squash_to_unit_interval(
        float(f.distance_to_station), 250.0))
    ctx.check(close(d, km, 1e-4, 1e-5), 'read-back',
              lambda: f'distance {d} instead of {km}')
    col = obs[16:].reshape(-1, 3)
    ctx.check(f.num_pressure_levels == len(col)
              and f.wind_column_center() == len(col) // 2, 'read-back',
              lambda: f'{f.num_pressure_levels} levels')
    for k in range(len(col)):
      t = f.wind_at(k)
      got = [float(x) for x in (t.uncertainty, t.bearing, t.magnitude)]
      x = [float(y) for y in col[k]]
      ctx.check(got == x and [float(f.uncertainty(k)), float(f.bearing(k)),
                              float(f.magnitude(k))] == x, 'read-back:wind',
                lambda: f'entry {k} is {got} instead of {x}')
      valid = x != [0.0, 1.0, 1.0]
      ctx.check(bool(f.level_is_valid(k)) == valid, 'read-back:valid',
                lambda: f'entry {k}, {x}, valid: {not valid}')
      if valid and x[2] < 0.99:
        r = L.features.convert_wind_feature_to_real_wind(t)
        ctx.check(float(r.uncertainty) == x[0]
                  and close(float(r.bearing), x[1] * math.pi, 1e-6, 1e-6)
                  and close(float(r.magnitude), 30.0 * x[2] / (1.0 - x[2]),
                            1e-4, 1e-4), 'read-back:real-wind',
                  lambda: f'{r} for {x}')
    for k in (-1, -2, -len(col), -len(col) - 1, len(col), len(col) + 5):
      self.refused(ctx, f'level {k}', lambda: f.wind_at(k))
      self.refused(ctx, f'level {k}', lambda: f.level_is_valid(k))
    for x in (-1e-6, -0.5, 1.0, 1.0 + 1e-6, 7.0):
      self.refused(ctx, f'value {x}', lambda:
                   transforms.undo_squash_to_unit_interval(x, 250.0))
    ctx.probe('read_back')

  def refused(self, ctx, what, call):
    try:
      got = call()
    except ValueError:
      ctx.fault('refused')
      return
    ctx.check(False, 'accepted', f'{what}: {got}')


PROP = E10()
