"""E05: battery energy is accounted for exactly and stays within bounds."""
from sim import flight
from sim.ref import physics


class E05(flight.FlightProp):
  id = 'E05'
  title = 'Battery energy is accounted for exactly and stays within bounds'
  rule = ('seeded flights through day and night with battery, clock and '
          'altitude faults; charge, charging and load after each step are '
          'compared with the reference ledger; non-trivial: more than 20 trace '
          'events and 3 abstract states')
  runs = {'quick': 96, 'thorough': 4000}
  kinds = ('battery', 'battery', 'clock', 'clock', 'clock', 'pressure',
           'teleport', 'superpressure', 'safety_off', 'safety_on', 'gas_leak')
  fault_rate = 0.8

  def begin(self, w, ctx):
    self.atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)

  def before(self, w, ctx, letter):
    return w.uv()

  def after(self, w, ctx, letter, pre, uv):
    n = flight.numbers(w.state)
    soc = w.state.battery_soc
    ctx.check(0.0 <= soc <= 1.0, 'soc-bounds', repr(soc))
    ctx.check(flight.close(soc, n['battery_wh'] / n['capacity_wh'], 1e-12,
                           1e-12), 'soc', repr(soc))
    ctx.check(n['acs_watts'] == 0.0 or letter == 'd', 'compressor-power',
              f'{n["acs_watts"]} W after {flight.LETTER[letter]}')
    ctx.check(n['acs_watts'] == 0.0 or n['acs_mass_flow'] >= 0.0,
              'compressor-power-while-venting', '')
    ctx.check(n['acs_watts'] >= 0.0 and n['solar_watts'] >= 0.0, 'negative',
              f'{n["acs_watts"]} {n["solar_watts"]}')
    strides = round((n['elapsed'] - pre['elapsed']) / 10.0)
    if strides < 1:
      return   # E02
    act = flight.effective(n)
    ref = None
    for table in (physics.EFF_DOCUMENTED, physics.EFF_SHIPPED):
      ref, _ = physics.step(pre, uv, self.atm, act, 10 * strides, table, False)
      if all(flight.close(ref[k], n[k], 1e-7, 1e-4) for k in (
          'pressure', 'superpressure', 'x', 'y')):
        break
    else:
      ctx.probe('physics_differs')   # judged by E04 and E02
      return
    el = ref['_el']
    if abs(el - physics.MIN_SOLAR_EL) < 1e-6:
      return
    night = el <= physics.MIN_SOLAR_EL
    if night:
      ctx.check(n['solar_watts'] == 0.0, 'charging-at-night',
                f'{n["solar_watts"]} W at elevation {el}')
    ctx.probe('night' if night else 'day')
    for k, tol in (('solar_watts', 1e-6), ('load_watts', 1e-6),
                   ('acs_watts', 1e-6), ('battery_wh', 1e-6)):
      ctx.check(flight.close(n[k], ref[k], 1e-8, tol), 'ledger:' + k,
                lambda: f'{n[k]!r}, the model gives {ref[k]!r} (elevation {el})')
    if n['battery_wh'] == n['capacity_wh']:
      ctx.probe('full')
    if n['battery_wh'] == 0.0:
      ctx.probe('empty')


PROP = E05()
