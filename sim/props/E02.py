"""E02: a control step lasts three minutes and drifts with the wind."""
import copy
import datetime as dt
import math

from sim import core
from sim import flight
from sim.ref import physics


class E02(flight.FlightProp):
  id = 'E02'
  title = 'A control step lasts three minutes and drifts with the wind'
  rule = ('seeded flights in every wind field with vehicle faults, plus control '
          'steps of other durations and strides, valid and invalid; each step '
          'is compared with wind x time; non-trivial: more than 20 trace '
          'events and at least 3 abstract states')
  runs = {'quick': 96, 'thorough': 4000}

  def generate(self, rng, tier):
    plan = super().generate(rng, tier)
    for _ in range(rng.randint(1, 5)):
      stride = rng.choice([10.0, 10.0, 5.0, 1.0, 20.0, 60.0, 7.0, 2.5, 0.5])
      k = rng.randint(1, 25)
      sec = stride * k
      if rng.random() < 0.5:
        sec += rng.choice([1.0, 0.5, stride / 2.0, stride * 0.1, 3.0, -0.25])
      plan['ops'].insert(rng.randrange(len(plan['ops']) + 1),
                         ['duration', max(0.25, sec), stride,
                          rng.choice('dsu')])
    return plan

  def before(self, w, ctx, letter):
    return w.uv()

  def after(self, w, ctx, letter, pre, uv):
    post = flight.numbers(w.state)
    self.compare(ctx, pre, post, uv, 180.0, 10.0)
    if w.level == 'env':
      ctx.check(abs(w.info['time_elapsed'].total_seconds() - post['elapsed'])
                < 1e-9, 'info-time', str(w.info['time_elapsed']))

  def compare(self, ctx, pre, post, uv, duration, stride):
    dt_e = post['elapsed'] - pre['elapsed']
    dt_c = (post['date_time'] - pre['date_time']).total_seconds()
    ctx.check(abs(dt_e - dt_c) < 1e-6, 'clocks-disagree',
              f'elapsed +{dt_e}, calendar +{dt_c}')
    if post['status'] == 'OK':
      ctx.check(abs(dt_e - duration) < 1e-6, 'step-duration',
                f'+{dt_e} s instead of {duration}')
    else:
      n = dt_e / stride
      ctx.check(abs(n - round(n)) < 1e-6 and 1 <= round(n) and
                dt_e <= duration + 1e-6, 'last-step-duration', f'+{dt_e} s')
      ctx.probe('step_cut_by_failure')
    for i, k in ((0, 'x'), (1, 'y')):
      want = pre[k] + uv[i] * dt_e
      ctx.check(flight.close(post[k], want, 1e-11, 1e-5), 'drift:' + k,
                lambda: f'{post[k]!r} instead of {want!r}')
    ctx.check(post['clat'] == pre['clat'] and post['clng'] == pre['clng'],
              'station-moved', '')

  def _latlng(self, w, ctx):
    b = w.state
    n = flight.numbers(b)
    lat, lng = physics.offset_latlng(n['clat'], n['clng'], n['x'], n['y'])
    got = b.latlng
    ctx.check(abs(got.lat().radians - lat) < 1e-10 and abs(math.remainder(
        got.lng().radians - lng, 2 * math.pi)) < 1e-10, 'latlng',
              lambda: f'{got} instead of {math.degrees(lat)}, {math.degrees(lng)}')

  def execute(self, plan, ctx):
    ops, batch = plan['ops'], []
    w = self.make_world(plan['cfg'], ctx)
    self.begin(w, ctx)
    for op in ops:
      if op[0] == 'duration':
        self._latlng(w, ctx)
        self._duration(w, ctx, *op[1:])
      else:
        self.run_op(w, ctx, op)
    self._latlng(w, ctx)

  def _duration(self, w, ctx, seconds, stride, letter):
    """The vehicle itself accepts other durations; tried on a copy."""
    L = flight.Lib
    b = copy.deepcopy(w.state)
    if b.status.name != 'OK':
      return
    ball = L.balloon.Balloon(b)
    uv = w.uv()
    pre = flight.numbers(b)
    d, s = dt.timedelta(seconds=seconds), dt.timedelta(seconds=stride)
    valid = d % s == dt.timedelta(0)
    try:
      ball.simulate_step(w.wind(), w.atmosphere, flight.command(letter), d, s)
      refused = False
    except Exception as e:  # noqa
      refused = True
      if valid:
        raise
    post = flight.numbers(ball.state)
    ctx.log('duration', seconds, stride, refused, post['elapsed'])
    if not valid:
      ctx.fault('invalid_duration')
      ctx.check(refused, 'bad-duration-accepted',
                f'{seconds} s with a stride of {stride} s')
      for k in flight.NUMERIC:
        ctx.check(pre[k] == post[k], 'refused-step-changed:' + k, '')
    else:
      ctx.probe('other_duration')
      self.compare(ctx, pre, post, uv, seconds, stride)


PROP = E02()
