"""E08: the night-time power reserve is protected."""
import copy
import datetime as dt
import math
import pickle

from sim import flight
from sim import safety
from sim.ref import physics
from sim.ref import safety as ref


def schedule(ctx, latlng, t):
  """Next sunrise and sunset, checked against the reference sun."""
  from balloon_learning_environment.env.balloon import solar
  rise, sett = solar.get_next_sunrise_sunset(latlng, t)
  lat, lng = latlng.lat().radians, latlng.lng().radians
  for what, x, sign in (('sunrise', rise, 1), ('sunset', sett, -1)):
    el = physics.sun(lat, lng, x)[0]
    later = physics.sun(lat, lng, x + dt.timedelta(minutes=10))[0]
    off = el - physics.MIN_SOLAR_EL
    msg = f'{what} at {x}: the sun is at {el} deg'
    ctx.check(-1.2 < off < 5.5 and (later - el) * sign > 0, 'schedule:' + what,
              msg)
    if off > 1.2:
      # More than five minutes on the daylight side.
      ctx.finding('E08-schedule-search', 'schedule:' + what, msg)
    ahead = (x - t).total_seconds()
    ctx.check(-300 <= ahead <= 86400 + 300, 'schedule-next:' + what,
              f'{ahead} s ahead')
  return rise, sett


class E08(safety.SafetyProp):
  id = 'E08'
  title = 'The night-time power reserve is protected'
  mine = 'power_safety_layer'
  runs = {'quick': 160, 'thorough': 6000}
  kinds = ('battery', 'battery', 'battery', 'battery_night', 'battery_night',
           'battery_night', 'clock', 'clock', 'clock', 'infrared', 'safety_off',
           'safety_on', 'teleport')
  fault_rate = 0.9
  steps_per_op = 20

  # -- bare layer ----------------------------------------------------------

  def generate_layer(self, rng, tier):
    ops = []
    for _ in range(rng.randint(20, 140)):
      r = rng.random()
      if r < 0.05:
        ops.append([rng.choice(['save', 'restore', 'copy', 'pickle'])])
        continue
      if r < 0.3:
        # Shortly before or after the next event.
        when = [rng.choice(['rise', 'rise30', 'set']),
                rng.choice([-1800, -600, -181, -7, 7, 181, 600, 1800])]
      elif r < 0.85:
        when = ['plus', rng.choice([0, 10, 180, 180, 900, 3600, 7200, 4 * 3600])]
      else:
        when = ['plus', rng.choice([10 * 3600, 86400, 86400 + 13, 3 * 86400,
                                    20 * 86400])]
      r = rng.random()
      if r < 0.45:
        # Around what the night needs (in Wh above it) or the restart level.
        charge = ['margin', rng.choice([-300, -50, -1, -0.01, 0.01, 1, 50, 300])]
      elif r < 0.65:
        charge = ['soc', 0.05 + rng.choice([-0.04, -0.01, -1e-4, 1e-4, 0.01, 0.1])]
      else:
        charge = ['soc', rng.choice([0.0, 0.001, 0.026, 0.3, 0.6, 0.95, 1.0])]
      ops.append(['read', rng.choice('dddsu'), when, charge])
    return {'cfg': {
        'lat': round(rng.uniform(-10, 10), 3),
        'lng': round(rng.uniform(-175, 175), 3),
        'start': rng.randrange(0, 4 * 365 * 86400),
        'night_w': rng.choice([183.7, 183.7, 150.0, 260.0]),
        'capacity': rng.choice([3058.56, 3058.56, 1500.0])}, 'ops': ops}

  def execute_layer(self, plan, ctx):
    L, c = flight.Lib, plan['cfg']
    u = L.units
    t = u.datetime(2011, 1, 1) + dt.timedelta(seconds=c['start'])
    ll = L.s2.LatLng.from_degrees(c['lat'], c['lng'])
    b = L.balloon.BalloonState(center_latlng=ll, date_time=t)
    layer = b.power_safety_layer
    model = ref.Power(*schedule(ctx, b.latlng, t))
    ctx.check(not layer.navigation_is_paused, 'fresh-layer-paused', '')
    saved = None
    for op in plan['ops']:
      if op[0] == 'read':
        _, letter, when, charge = op
        if when[0] == 'plus':
          now = t + dt.timedelta(seconds=when[1])
        else:
          base = {'rise': model.sunrise - dt.timedelta(minutes=30),
                  'rise30': model.sunrise, 'set': model.sunset}[when[0]]
          now = base + dt.timedelta(seconds=when[1])
          while now < t:
            now += dt.timedelta(days=1)
        t = now
        rise = model._next(model.sunrise, now)
        if charge[0] == 'margin':
          need = c['night_w'] * (rise - now).total_seconds() / 3600.0
          wh = need + 0.025 * c['capacity'] + charge[1]
        else:
          wh = charge[1] * c['capacity']
        wh = min(max(wh, 0.0), c['capacity'])
        if (model.tie(now, c['night_w'], wh, c['capacity'])
            or now in (rise, model._next(model.sunset, now))):
          ctx.probe('tie')
          continue
        was = model.paused
        got = layer.get_action(
            flight.command(letter), now, u.Power(watts=c['night_w']),
            u.Energy(watt_hours=wh), u.Energy(watt_hours=c['capacity'])).name
        want = model.action(flight.LETTER[letter], now, c['night_w'], wh,
                            c['capacity'])
        night = model._next(model.sunset, now) > rise
        ctx.log('read', letter, now, wh, got, want)
        ctx.check(got == want, f'decision:{want}',
                  f'{flight.LETTER[letter]} at {now} ({"night" if night else "day"}'
                  f', morning {rise}) with {wh} Wh: {got}, paused before: {was}')
        ctx.check(bool(layer.navigation_is_paused) == model.paused,
                  'paused-flag', f'{layer.navigation_is_paused} at {now}')
        if was != model.paused:
          ctx.probe('pause' if model.paused else 'resume')
        ctx.state(was, model.paused, night, int(20 * wh / c['capacity']), letter)
        ctx.sim_seconds = (now - (u.datetime(2011, 1, 1) + dt.timedelta(
            seconds=c['start']))).total_seconds()
      elif op[0] == 'save':
        saved = (copy.deepcopy(layer), copy.deepcopy(model))
      elif op[0] == 'restore' and saved:
        # Only the layer's memory goes back, the calendar does not.
        layer, model = copy.deepcopy(saved)
        ctx.fault('restore')
      elif op[0] == 'copy':
        layer = copy.deepcopy(layer)
        ctx.fault('copied')
      elif op[0] == 'pickle':
        layer = pickle.loads(pickle.dumps(layer))
        ctx.fault('crash_restart_serialised')

  # -- flights -------------------------------------------------------------

  def draw_fault(self, rng):
    kind = rng.choice(self.kinds)
    if kind == 'battery_night':
      # Roughly what is left in the evening or at midnight.
      return ['fault', 'battery', round(rng.uniform(0.02, 0.9), 4)]
    return flight.draw_fault(rng, [kind])

  def ref_reset(self, w, ctx):
    b = w.state
    self.ref = ref.Power(*schedule(ctx, b.latlng, b.date_time))

  def ref_decide(self, w, n, a):
    if not w.state.power_safety_layer_enabled:
      return None, None, True, False
    args = (n['date_time'], n['night_w'], n['battery_wh'], n['capacity_wh'])
    tie = self.ref.tie(*args)
    was = self.ref.paused
    self.ref.action(a, *args)
    if was != self.ref.paused:
      w.ctx.probe('pause' if self.ref.paused else 'resume')
    return (None, 'DOWN' if self.ref.paused else None,
            a != 'DOWN' or not self.ref.paused, tie)

  def resync(self, w):
    self.ref.paused = bool(w.state.power_safety_layer.navigation_is_paused)


PROP = E08()
