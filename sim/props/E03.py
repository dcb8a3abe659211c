"""E03: an episode ends exactly when the vehicle fails, and stays ended."""
from sim import flight
from sim.ref import physics

NAMES = {'OUT_OF_POWER': 'out_of_power', 'BURST': 'envelope_burst',
         'ZEROPRESSURE': 'zeropressure'}


class E03(flight.FlightProp):
  id = 'E03'
  title = 'An episode ends exactly when the vehicle fails, and stays ended'
  rule = ('seeded flights driven towards the three failures by gas, battery, '
          'heat and pressure faults, singly and together; the stride and cause '
          'of each failure are compared with the reference model, failed '
          'vehicles are stepped again; non-trivial: more than 20 trace events '
          'and 3 abstract states')
  runs = {'quick': 96, 'thorough': 4000}
  levels = ('env', 'env', 'balloon')
  kinds = ('gas_leak', 'air_leak', 'air_fill', 'battery', 'battery', 'heat',
           'superpressure', 'pressure', 'ballonet_empty', 'infrared', 'clock',
           'safety_off')
  fault_rate = 0.8
  n_steps = {'quick': 200, 'thorough': 400}

  def directed(self):
    out = []
    for level in ('env', 'balloon'):
      cfg = {'level': level, 'field': 'simple', 'seed': 11, 'speed': 3.0,
             'power_safety': True, 'lat': 1.0, 'lng': 10.0, 'x': 1e4, 'y': 0.0,
             'pressure': 9000.0, 'ir': 250.0, 'start': 86400 * 100 + 6 * 3600,
             'alpha_seed': 3, 'params': {}, 'features': 'stub'}
      for faults in ([['battery', 1e-4], ['air_fill', 2500.0]],
                     [['battery', 1e-4], ['gas_leak', 0.3]],
                     [['gas_leak', 0.3]], [['air_fill', 2500.0]],
                     [['battery', 1e-4]], [['battery', 2e-3]]):
        for clock in (0, 12 * 3600):
          out.append({'cfg': cfg, 'ops': (
              [['act', 'sd'], ['fault', 'clock', clock]] +
              [['fault'] + f for f in faults] + [['act', 'ssdduu'], ['reset'],
                                                 ['act', 'ds']])})
    return out

  def draw_fault(self, rng):
    f = super().draw_fault(rng)
    if f[1] == 'battery' and rng.random() < 0.6:
      # Lasts for some of the eighteen strides of a step or two.
      f[2] = rng.uniform(1e-4, 6e-3)
    if f[1] == 'air_fill' and rng.random() < 0.5:
      f[2] = rng.uniform(800.0, 3000.0)
    return f

  def begin(self, w, ctx):
    self.atm = physics.Atmosphere.of(w.atmosphere, flight.Lib.units)
    n = flight.numbers(w.state)
    ctx.check(n['status'] == 'OK' and 0 < n['superpressure'] <= n['sp_max']
              and n['battery_wh'] > 0, 'reset-not-healthy', str(n['status']))

  def before(self, w, ctx, letter):
    return w.uv()

  def after(self, w, ctx, letter, pre, uv):
    n = flight.numbers(w.state)
    ctx.check(w.terminal == (n['status'] != 'OK'), 'terminal-flag',
              f'terminal {w.terminal}, status {n["status"]}')
    if w.level == 'env':
      ctx.check(isinstance(w.terminal, bool) or w.terminal in (0, 1),
                'terminal-type', repr(w.terminal))
      flags = {k: bool(w.info[k]) for k in NAMES.values()}
      want = {v: n['status'] == k for k, v in NAMES.items()}
      ctx.check(flags == want, 'failure-flags', f'{flags} for {n["status"]}')
    sp, wh = n['superpressure'], n['battery_wh']
    cause = ('OUT_OF_POWER' if wh <= 0 else 'BURST' if sp > n['sp_max'] else
             'ZEROPRESSURE' if sp <= 0 else 'OK')
    ctx.check(n['status'] == cause, 'cause:' + cause,
              f'status {n["status"]} with superpressure {sp}, battery {wh} Wh')
    # Which stride it should have stopped at, by the model.
    strides = round((n['elapsed'] - pre['elapsed']) / 10.0)
    act = flight.effective(n)
    for table in (physics.EFF_DOCUMENTED, physics.EFF_SHIPPED):
      ref, _ = physics.step(pre, uv, self.atm, act, 10 * strides, table, False)
      ok = all(flight.close(ref[k], n[k], 1e-6, 1e-3) for k in (
          'pressure', 'superpressure', 'mols_air', 'battery_wh',
          'internal_temperature'))
      if ok:
        break
    else:
      ctx.probe('physics_differs')   # judged by E04 and E05
      return
    s, k = physics.step(pre, uv, self.atm, act, 180, table)
    margin = min(abs(s['superpressure']), abs(s['superpressure'] - s['sp_max']))
    if s['status'] == n['status'] == 'OK':
      return
    if 0 < margin < 1e-3 or (0 < s['battery_wh'] < 1e-6):
      ctx.probe('tie')
      return
    ctx.check(k == strides and s['status'] == n['status'], 'failure-stride',
              f'{n["status"]} after {strides} strides, the model gives '
              f'{s["status"]} after {k}')
    ctx.probe('failure_stride:%d' % k)

  def at_terminal(self, w, ctx):
    for letter in 'sdu':
      n0 = flight.numbers(w.state)
      try:
        w.step(letter)
        refused = False
      except Exception:  # noqa
        refused = True
      n1 = flight.numbers(w.state)
      ctx.check(refused, 'failed-vehicle-stepped', n0['status'])
      for k in n0:
        if k != 'last':
          ctx.check(n0[k] == n1[k], 'refused-step-changed:' + k,
                    f'{n0[k]} {n1[k]}')
    ctx.fault('step_after_failure', 3)


PROP = E03()
