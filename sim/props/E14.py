"""E14: no sequence of actions can crash or derail a flight."""
import math

from sim import core
from sim import flight

BAD = (3, -1, 7, 255, 10**9, 0.5, 1.5, -0.5, 'down', 'UP', None, float('nan'),
       [0], {})


class E14(core.Prop):
  id = 'E14'
  title = 'No sequence of actions can crash or derail a flight'
  rule = ('seeded flights under random and adversarial policies that read the '
          'vehicle state and steer towards its limits, with invalid actions, '
          'early resets and rendering in between, against a twin that never '
          'sees the invalid actions; non-trivial: at least 40 steps')
  technique = ('seeded adversarial flights with injected invalid actions; '
               'crash, hang and physical-range invariants after every step')
  runs = {'quick': 80, 'thorough': 3000}
  wall = {'quick': 150, 'thorough': 1800}
  real = ['the whole environment: BalloonEnv, BalloonArena, physics, safety '
          'layers, features, WindGP, reward, wind fields, noise, decoder']
  stub = ['trained decoder weights (random ones of the same shape)']
  assumptions = ['a step that takes minutes counts as hanging']

  def setup(self):
    flight.Lib.load()
    from sim import fields
    fields.weights()

  def generate(self, rng, tier):
    cfg = flight.draw_cfg(rng, 'env', ('simple', 'grid', 'storm', 'decoder'))
    cfg['power_safety'] = rng.random() < 0.6
    cfg['twin'] = rng.random() < 0.35
    n = rng.choice([60, 150, 250, 300, 480] + ([960, 2000] if tier != 'quick'
                                               else [700]))
    if cfg['twin']:
      n = min(n, 120)
    ops = []
    style = rng.random()
    while n > 0:
      r = rng.random()
      if r < 0.25:
        ops.append(['bad', rng.randrange(len(BAD))])
      elif r < 0.30:
        ops.append(rng.choice([['reset'], ['seed', rng.randrange(2**31)]]))
      k = min(n, rng.choice([1, 5, 20, 60, 160, 300]))
      if style < 0.4 or rng.random() < 0.3:
        ops.append(['act', flight.draw_actions(rng, k)])
      else:
        ops.append(['policy', rng.choice([
            'drain', 'high', 'low', 'bounce', 'burst', 'vent', 'night', 'edge']),
                    k, rng.randrange(2**31)])
      n -= k
    return {'cfg': cfg, 'ops': ops}

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    w = flight.World(cfg, ctx)
    twin = flight.World(cfg, ctx) if cfg['twin'] else None
    self.steps = 0
    self.physical(w, ctx)
    for op in plan['ops']:
      if op[0] == 'act':
        for letter in op[1]:
          self.step(w, twin, letter, ctx)
      elif op[0] == 'policy':
        r = core.prng('policy', op[3])
        for _ in range(op[2]):
          self.step(w, twin, self.choose(op[1], w, r), ctx)
      elif op[0] == 'bad':
        self.refused(w, BAD[op[1]], ctx)
      else:
        seed = op[1] if op[0] == 'seed' else None
        w.reset(seed)
        if twin:
          twin.reset(seed)
        ctx.fault('early_reset')
        self.physical(w, ctx)

  def choose(self, policy, w, r):
    """Steers towards a limit of the vehicle, seeing its true state."""
    b = w.state
    sp, p = b.superpressure, b.pressure
    if policy == 'drain':
      return 'd'
    if policy == 'high':
      return 'u' if p > 6000 or r.random() < 0.3 else 's'
    if policy == 'low':
      return 'd' if r.random() < 0.95 else 's'
    if policy == 'bounce':
      return 'd' if p < 7500 else 'u' if p > 10500 else (
          'd' if b.last_command.name == 'DOWN' else 'u')
    if policy == 'burst':
      return 'd' if sp < 2200 else 's'
    if policy == 'vent':
      return 'u' if sp > 100 else 's'
    if policy == 'night':
      # Saves nothing by day, spends everything by night.
      return 's' if b.solar_charging.watts > 0 else 'd'
    # 'edge': cross the altitude limit and the buffers again and again.
    return 'd' if p < 11300 else r.choice('uds')

  def step(self, w, twin, letter, ctx):
    if w.terminal:
      w.reset()
      if twin:
        twin.reset()
      ctx.probe('reset_after_failure')
      self.physical(w, ctx)
    t = w.state.time_elapsed
    w.step(letter)
    self.steps += 1
    ctx.check(w.state.time_elapsed > t, 'no-progress', 'time stands still')
    n = self.physical(w, ctx)
    r = w.reward
    ctx.check(isinstance(float(r), float) and 0.0 <= r <= 1.0, 'reward', str(r))
    ctx.check(isinstance(bool(w.terminal), bool) and
              set(w.info) >= {'out_of_power', 'envelope_burst', 'zeropressure',
                              'time_elapsed'}, 'info', str(w.info))
    if n['status'] != 'OK':
      ctx.probe('failure:' + n['status'])
      ctx.check(w.terminal, 'failed-but-not-terminal', '')
    if twin:
      twin.step(letter)
      ctx.check(n == flight.numbers(twin.state), 'refused-action-left-traces',
                lambda: str([(k, v, flight.numbers(twin.state)[k])
                             for k, v in n.items()
                             if flight.numbers(twin.state)[k] != v])[:500])
      ctx.check(flight.Lib.np.array_equal(w.obs, twin.obs) and
                w.reward == twin.reward and w.terminal == twin.terminal,
                'refused-action-left-traces', 'observation or reward')
    ctx.state(*flight.bucket(n))
    if self.steps % 4 == 0:
      ctx.log(letter, n['x'], n['pressure'], n['superpressure'],
              n['battery_wh'], r)

  def physical(self, w, ctx):
    n = flight.numbers(w.state)
    np = flight.Lib.np
    for k in flight.NUMERIC:
      ctx.check(math.isfinite(n[k]), 'not-finite:' + k, lambda: str(n[k]))
    ctx.check(bool(np.all(np.isfinite(w.obs))), 'not-finite:observation', '')
    ctx.check(w.env.observation_space.shape == w.obs.shape, 'shape', '')
    for k in ('pressure', 'ambient_temperature', 'internal_temperature',
              'envelope_volume', 'mols_lift_gas'):
      ctx.check(n[k] > 0.0, 'not-positive:' + k, lambda: str(n[k]))
    ctx.check(n['mols_air'] >= 0.0, 'negative-air', lambda: str(n['mols_air']))
    ctx.check(0.0 <= n['battery_wh'] <= n['capacity_wh'] * (1 + 1e-12),
              'charge', lambda: str(n['battery_wh']))
    ctx.check(0.0 <= float(w.state.battery_soc) <= 1.0 + 1e-12, 'charge', '')
    ctx.check(float(w.state.pressure_ratio) >= 1.0, 'pressure-ratio',
              lambda: str(w.state.pressure_ratio))
    if not w.terminal:
      ctx.check(0.0 < n['superpressure'] <= n['sp_max'], 'superpressure',
                lambda: str(n['superpressure']))
    ctx.check(150.0 < n['internal_temperature'] < 350.0, 'temperature',
              lambda: str(n['internal_temperature']))
    ctx.check(3000.0 < n['pressure'] < 30000.0, 'pressure',
              lambda: str(n['pressure']))
    lat = w.state.latlng.lat().degrees
    ctx.check(-90.0 <= lat <= 90.0, 'latitude', lambda: str(lat))
    return n

  def refused(self, w, bad, ctx):
    before = flight.numbers(w.state)
    paused = bool(w.state.navigation_is_paused)
    try:
      w.env.step(bad)
    except Exception as e:  # noqa: any refusal will do
      ctx.log('refused', repr(bad), type(e).__name__)
    else:
      ctx.check(False, 'invalid-action-accepted', repr(bad))
    ctx.check(flight.numbers(w.state) == before and
              bool(w.state.navigation_is_paused) == paused,
              'invalid-action-changed-flight', repr(bad))
    ctx.fault('invalid_action')

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[1]) > 1:
        h = len(op[1]) // 2
        for part in (op[1][:h], op[1][h:], op[1][:-1]):
          yield dict(plan, ops=plan['ops'][:i] + [['act', part]] +
                     plan['ops'][i + 1:])
      if op[0] == 'policy' and op[2] > 1:
        for k in (op[2] // 2, op[2] - 1):
          yield dict(plan, ops=plan['ops'][:i] + [[op[0], op[1], k, op[3]]] +
                     plan['ops'][i + 1:])
    for k, v in (('twin', False), ('field', 'simple'), ('power_safety', True)):
      if plan['cfg'].get(k) != v:
        yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))

  def nontrivial(self, plan, ctx):
    return self.steps >= 40


PROP = E14()
