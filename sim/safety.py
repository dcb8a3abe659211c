"""Scenarios for the three safety layers: bare layers and whole flights.

Layer mode feeds a layer an adversarial history of readings and commands, with
missing samples, saves and restores.  Flight mode flies the vehicle and decides
what each layer did from the visible effect of the step; what the other two
layers would have done is read from copies of them taken before the step, so
that a fault of one layer is not put down to another.
"""
import copy
import datetime as dt

from sim import flight

LET = {'DOWN': 'd', 'STAY': 's', 'UP': 'u'}


class SafetyProp(flight.FlightProp):
  levels = ('env', 'balloon', 'balloon')
  layer_share = 0.4
  mine = None           # attribute of the state
  rule = ('seeded histories of readings and commands to the bare layer (with '
          'gaps, jumps, saves and restores) and seeded flights with vehicle '
          'faults; every decision is compared with a reference machine; '
          'non-trivial: more than 20 trace events and 3 abstract states')
  technique = ('seeded histories of readings, commands, faults and restores '
               'against a reference state machine')

  # -- layer mode ----------------------------------------------------------

  def generate(self, rng, tier):
    if rng.random() < self.layer_share:
      plan = self.generate_layer(rng, tier)
      plan['cfg']['mode'] = 'layer'
      return plan
    plan = super().generate(rng, tier)
    plan['cfg']['mode'] = 'flight'
    return plan

  def execute(self, plan, ctx):
    if plan['cfg']['mode'] == 'layer':
      self.execute_layer(plan, ctx)
    else:
      super().execute(plan, ctx)

  def shrink(self, plan):
    if plan['cfg']['mode'] == 'layer':
      return iter(())
    return super().shrink(plan)

  # -- flight mode ---------------------------------------------------------

  def ref_reset(self, w, ctx):
    raise NotImplementedError

  def ref_decide(self, w, a):
    """(must, forbidden, passes): what the property says about this step."""
    raise NotImplementedError

  def begin(self, w, ctx):
    self.ref_reset(w, ctx)
    self.paused_check(w, ctx)

  def paused_check(self, w, ctx):
    got = bool(getattr(w.state, self.mine).navigation_is_paused)
    ctx.check(got == self.ref.paused, 'paused-flag',
              f'{self.mine}.navigation_is_paused is {got}')
    if got:
      ctx.check(bool(w.state.navigation_is_paused), 'state-paused-flag',
                'the vehicle does not report the pause')

  def before(self, w, ctx, letter):
    b = w.state
    C = flight.Lib.control.AltitudeControlCommand
    a = flight.command(letter)
    # What the other layers do, from copies of them.
    chain = []
    for name in ('power_safety_layer', 'envelope_safety_layer',
                 'altitude_safety_layer'):
      if name == self.mine:
        chain.append(None)
        continue
      layer = copy.deepcopy(getattr(b, name))
      def f(x, layer=layer, name=name):
        layer = copy.deepcopy(layer)
        if name == 'power_safety_layer':
          if not b.power_safety_layer_enabled:
            return x
          return layer.get_action(x, b.date_time, b.nighttime_power_load,
                                  b.battery_charge, b.battery_capacity)
        if name == 'envelope_safety_layer':
          return layer.get_action(x, b.superpressure)
        return layer.get_action(x, w.atmosphere, b.pressure)
      chain.append(f)
    n = flight.numbers(b)
    must, forbidden, passes, tie = self.ref_decide(w, n, LETTER_NAME[letter])
    x = a
    for f in chain:
      x = f(x) if f is not None else x
    return must, forbidden, passes, x.name, tie

  def after(self, w, ctx, letter, pre, token):
    must, forbidden, passes, other, tie = token
    n = flight.numbers(w.state)
    if tie:
      # Too close to a threshold to call: take over what the layer decided.
      ctx.probe('tie')
      self.resync(w)
      return
    self.paused_check(w, ctx)
    if pre['superpressure'] <= 1e-6 or n['status'] != 'OK':
      ctx.probe('effect_not_visible')
      return
    eff = flight.effective(n)
    if must:
      ctx.check(eff == must, 'must-' + must,
                f'commanded {LETTER_NAME[letter]}, flew {eff}')
      ctx.probe('forced_' + must.lower())
    if forbidden:
      ctx.check(eff != forbidden, 'withheld-' + forbidden,
                f'commanded {LETTER_NAME[letter]}, flew {eff}')
      ctx.probe('withheld')
    if passes:
      ctx.check(eff == other, 'passes-unchanged',
                f'commanded {LETTER_NAME[letter]}, flew {eff}, the other '
                f'layers allow {other}')
      if other == 'DOWN':
        ctx.probe('descended')

  def resync(self, w):
    pass


LETTER_NAME = flight.LETTER


def rnd_command(rng):
  return rng.choice('dddsu')
