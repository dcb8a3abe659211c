"""E04: flight follows the balloon model (buoyancy, gas and heat)."""
from sim import flight
from sim.ref import physics

TOL = {'pressure': (1e-8, 1e-5), 'ambient_temperature': (1e-8, 1e-7),
       'internal_temperature': (1e-8, 1e-7), 'envelope_volume': (1e-8, 1e-7),
       'superpressure': (1e-7, 1e-3), 'mols_air': (1e-8, 1e-6),
       'acs_mass_flow': (1e-6, 1e-10)}


class E04(flight.FlightProp):
  id = 'E04'
  title = 'Flight follows the balloon model'
  rule = ('seeded flights (vehicle, weather, atmosphere, date, place, action '
          'runs, gas/heat/infrared/pressure/clock faults between steps); every '
          'control step is compared with the reference model stepped from the '
          'real state before it; non-trivial: more than 20 trace events and at '
          'least 3 abstract states')
  kinds = ('gas_leak', 'air_leak', 'air_fill', 'infrared', 'clock', 'teleport',
           'pressure', 'heat', 'ballonet_empty', 'battery', 'superpressure')
  runs = {'quick': 96, 'thorough': 4000}

  def begin(self, w, ctx):
    self.atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)
    b = flight.numbers(w.state)
    h, t = self.atm.at_pressure(b['pressure'])
    ctx.check(flight.close(t, b['ambient_temperature'], 1e-9, 1e-6),
              'ambient-temperature', lambda: f'{t} {b["ambient_temperature"]}')

  @staticmethod
  def differs(ref, post):
    return (ref['status'] != post['status']
            or ref['elapsed'] != post['elapsed']
            or any(not flight.close(ref[f], post[f], rel, ab)
                   for f, (rel, ab) in TOL.items()))

  def before(self, w, ctx, letter):
    return w.uv()

  def after(self, w, ctx, letter, pre, uv):
    post = flight.numbers(w.state)
    act = flight.effective(post)
    ref, k = physics.step(pre, uv, self.atm, act)
    if act == 'DOWN' and self.differs(ref, post):
      # The compressor table read the other way round (finding E04-acs-table);
      # anything else than exactly that is a violation.
      alt, k2 = physics.step(pre, uv, self.atm, act,
                             table=physics.EFF_SHIPPED)
      if not self.differs(alt, post):
        ctx.finding('E04-acs-table', 'compressor-table', lambda: (
            f'pressure ratio {1 + pre["superpressure"] / pre["pressure"]:.4f}: '
            f'pumps {post["acs_mass_flow"]:.3e} kg/s at '
            f'{post["acs_watts"]:.0f} W, the documented table gives '
            f'{ref["acs_mass_flow"]:.3e} kg/s'))
      ref, k = alt, k2
    if ref['status'] != post['status'] or ref['elapsed'] != post['elapsed']:
      # Failure detection is E03's business; compare what is comparable.
      ctx.probe('status_differs')
      return
    for f, (rel, ab) in TOL.items():
      ctx.check(flight.close(ref[f], post[f], rel, ab), 'model:' + f,
                lambda: f'after {act} for {k} strides: {f} is {post[f]!r}, the '
                        f'model gives {ref[f]!r}')
    ctx.check(post['mols_air'] >= 0.0, 'negative-air', repr(post['mols_air']))
    ctx.check(post['mols_lift_gas'] == pre['mols_lift_gas'], 'lift-gas',
              'lift gas changed')
    if post['mols_air'] == 0.0:
      ctx.probe('ballonet_empty')
    if act == 'DOWN':
      ctx.probe('pumping')
    elif act == 'UP':
      ctx.probe('venting')


PROP = E04()
