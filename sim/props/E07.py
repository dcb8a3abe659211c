"""E07: the balloon is never commanded below its minimum safe altitude."""
import copy
import pickle

from sim import flight
from sim import safety
from sim.ref import physics
from sim.ref import safety as ref

FT = physics.FT


class E07(safety.SafetyProp):
  id = 'E07'
  title = 'The balloon is never commanded below its minimum safe altitude'
  mine = 'altitude_safety_layer'
  runs = {'quick': 160, 'thorough': 6000}
  kinds = ('gas_leak', 'air_fill', 'air_fill', 'heat', 'low', 'low', 'low',
           'infrared', 'clock', 'safety_off', 'superpressure')
  fault_rate = 0.8

  def draw_fault(self, rng):
    kind = rng.choice(self.kinds)
    if kind == 'low':
      # Equilibrium somewhere around the thresholds (11600 Pa ~ 50,000 ft).
      return ['fault', 'pressure', round(rng.uniform(10800, 12100), 2)]
    return flight.draw_fault(rng, [kind])

  def tune_cfg(self, rng, cfg):
    if cfg['level'] == 'balloon' and rng.random() < 0.8:
      cfg['pressure'] = round(rng.uniform(10700, 11700), 2)

  def generate_layer(self, rng, tier):
    edges = [50000, 50500, 51000]
    ops, h = [], rng.uniform(49000, 60000)
    for _ in range(rng.randint(20, 160)):
      r = rng.random()
      if r < 0.5:
        h = rng.choice(edges) + rng.choice(
            [-400, -100, -5, -0.01, 0.01, 5, 100, 400])
      elif r < 0.8:
        h += rng.choice([-1, 1]) * rng.choice([20, 100, 250, 600])
      elif r < 0.95:
        h = rng.uniform(45000, 62000)
      if r > 0.95:
        ops.append([rng.choice(['save', 'restore', 'copy', 'pickle',
                                'atmosphere'])])
      else:
        ops.append(['read', safety.rnd_command(rng), round(h, 3)])
    return {'cfg': {'alpha': rng.randrange(2**31)}, 'ops': ops}

  def execute_layer(self, plan, ctx):
    L = flight.Lib
    u = L.units
    key = plan['cfg']['alpha']
    atm = L.standard_atmosphere.Atmosphere(L.jax.random.PRNGKey(key))
    ratm = physics.Atmosphere.of(atm, u)
    b = L.balloon.BalloonState(
        center_latlng=L.s2.LatLng.from_degrees(0.0, 0.0),
        date_time=u.datetime(2012, 3, 4, 5))
    layer, model, saved = b.altitude_safety_layer, ref.Altitude(), None
    for op in plan['ops']:
      if op[0] == 'read':
        _, letter, h_ft = op
        p = ratm.pressure_at(h_ft * FT)
        if model.tie(h_ft * FT):
          ctx.probe('tie')
          continue
        got = layer.get_action(flight.command(letter), atm, p).name
        want = model.action(flight.LETTER[letter], h_ft * FT)
        ctx.log('read', letter, h_ft, got, want)
        ctx.check(got == want, f'decision:{want}',
                  f'{flight.LETTER[letter]} at {h_ft} ft: {got}')
        ctx.check(bool(layer.navigation_is_paused) == model.paused,
                  'paused-flag', f'at {h_ft} ft: {layer.navigation_is_paused}')
        ctx.state(model.latched, int(h_ft // 250), got)
        ctx.sim_seconds += 180
      elif op[0] == 'save':
        saved = (copy.deepcopy(layer), copy.deepcopy(model))
      elif op[0] == 'restore' and saved:
        layer, model = copy.deepcopy(saved)
        ctx.fault('restore')
      elif op[0] == 'copy':
        layer = copy.deepcopy(layer)
        ctx.fault('copied')
      elif op[0] == 'pickle':
        layer = pickle.loads(pickle.dumps(layer))
        ctx.fault('crash_restart_serialised')
      elif op[0] == 'atmosphere':
        # Another day's weather: same height, other pressure.
        key += 1
        atm = L.standard_atmosphere.Atmosphere(L.jax.random.PRNGKey(key))
        ratm = physics.Atmosphere.of(atm, u)
        ctx.fault('atmosphere_change')

  def ref_reset(self, w, ctx):
    self.ref = ref.Altitude()
    self.atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)

  def ref_decide(self, w, n, a):
    h = self.atm.at_pressure(n['pressure'])[0]
    tie = self.ref.tie(h)
    self.ref.action(a, h)
    return ('UP' if h < 50000 * FT else None,
            'DOWN' if self.ref.paused else None,
            not self.ref.paused, tie)

  def resync(self, w):
    self.ref.latched = bool(w.state.altitude_safety_layer.navigation_is_paused)


PROP = E07()
