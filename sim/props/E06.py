"""E06: the envelope is protected from over- and under-pressure."""
import copy
import pickle

from sim import flight
from sim import safety
from sim.ref import safety as ref


class E06(safety.SafetyProp):
  id = 'E06'
  title = 'The envelope is protected from over- and under-pressure'
  mine = 'envelope_safety_layer'
  runs = {'quick': 160, 'thorough': 6000}
  kinds = ('gas_leak', 'air_leak', 'air_fill', 'heat', 'superpressure',
           'sp_target', 'sp_target', 'sp_target', 'sp_target', 'pressure', 'infrared', 'clock', 'safety_off',
           'ballonet_empty')
  fault_rate = 0.8

  # Bare layer.

  def generate_layer(self, rng, tier):
    top = rng.choice([2380.0, 2380.0, 2380.0, 1800.0, 3000.0, 900.0])
    edges = [150, 250, 300, top - 300, top - 250, top - 150]
    ops = []
    sp = rng.uniform(0, top)
    for _ in range(rng.randint(20, 160)):
      r = rng.random()
      if r < 0.45:
        sp = rng.choice(edges) + rng.choice(
            [-60, -20, -1, -1e-3, -1e-6, 1e-6, 1e-3, 1, 20, 60])
      elif r < 0.75:
        sp += rng.choice([-1, 1]) * rng.choice([3, 15, 40, 90])
      elif r < 0.85:
        sp = rng.choice([-5.0, 1e-9, top + 500, top - 1e-6, top / 2, 1e5])
      elif r < 0.97:
        sp = rng.uniform(0, top)
      if r > 0.97:
        ops.append([rng.choice(['save', 'restore', 'copy', 'pickle'])])
      else:
        ops.append(['read', safety.rnd_command(rng), sp])
    return {'cfg': {'top': top}, 'ops': ops}

  def execute_layer(self, plan, ctx):
    L = flight.Lib
    top = plan['cfg']['top']
    b = L.balloon.BalloonState(
        center_latlng=L.s2.LatLng.from_degrees(0.0, 0.0),
        date_time=L.units.datetime(2012, 3, 4, 5),
        envelope_max_superpressure=top)
    layer, model = b.envelope_safety_layer, ref.Envelope(top)
    saved = None
    for op in plan['ops']:
      if op[0] == 'read':
        _, letter, sp = op
        got = layer.get_action(flight.command(letter), sp).name
        want = model.action(flight.LETTER[letter], sp)
        ctx.log('read', letter, sp, got, want)
        ctx.check(got == want, f'decision:{want}',
                  f'{flight.LETTER[letter]} at {sp} Pa of {top}: {got}')
        ctx.check(bool(layer.navigation_is_paused) == model.paused,
                  'paused-flag', f'at {sp} Pa: {layer.navigation_is_paused}')
        ctx.state(model.side, int(sp // 50), got)
        ctx.sim_seconds += 180
      elif op[0] == 'save':
        saved = (copy.deepcopy(layer), copy.deepcopy(model))
      elif op[0] == 'restore' and saved:
        layer, model = copy.deepcopy(saved)
        ctx.fault('restore')
      elif op[0] == 'copy':
        layer = copy.deepcopy(layer)
        ctx.fault('copied')
      elif op[0] == 'pickle':
        layer = pickle.loads(pickle.dumps(layer))
        ctx.fault('crash_restart_serialised')

  # Flights.

  def ref_reset(self, w, ctx):
    self.ref = ref.Envelope(flight.numbers(w.state)['sp_max'])

  def ref_decide(self, w, n, a):
    got = self.ref.action(a, n['superpressure'])
    sp, top = n['superpressure'], n['sp_max']
    critical = sp < 150 or sp >= top - 150
    # Ascending and staying are what the layers above and below may turn a
    # descent into; only the altitude layer, which has the last word, can.
    return ('UP' if critical else None,
            'DOWN' if self.ref.paused else None,
            not self.ref.paused, False)


PROP = E06()
