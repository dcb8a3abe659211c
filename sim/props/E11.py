"""E11: wind estimates are the forecast corrected by the measurements."""
import copy
import datetime as dt
import math

from sim import core
from sim import fields
from sim import flight


class E11(core.Prop):
  id = 'E11'
  title = 'Wind estimates are the forecast corrected by the measurements'
  rule = ('seeded streams of wind measurements sent through a lossy, '
          'duplicating, delaying and reordering channel into the estimator, '
          'and seeded flights with position and clock jumps; every answer is '
          'compared with an independent Gaussian-process regression over what '
          'arrived; non-trivial: at least 8 queries answered')
  technique = ('seeded measurement histories with loss, duplication, delay, '
               'reordering and clock jumps against a reference regression')
  runs = {'quick': 160, 'thorough': 5000}
  real = ['WindGP (with scikit-learn), PerciatelliFeatureConstructor, '
          'BalloonArena, wind fields and noise']
  stub = ['wind decoder weights (random grid sampler, analytic storm)']
  assumptions = ['a measurement exactly six hours old may count or not',
                 'answers are compared with a tolerance of 1e-6']

  def setup(self):
    flight.Lib.load()
    from balloon_learning_environment.env import wind_gp
    self.wind_gp = wind_gp

  def generate(self, rng, tier):
    if rng.random() < 0.35:
      return self.generate_flight(rng, tier)
    cfg = {'mode': 'channel', 'field': rng.choice(['simple', 'grid', 'storm']),
           'speed': rng.choice([3.0, 15.0, 40.0]), 'seed': rng.randrange(2**31)}
    ops, now, queue = [], 0.0, []
    x, y, p = rng.uniform(-3e5, 3e5), rng.uniform(-3e5, 3e5), rng.uniform(6000, 12000)
    n = rng.randint(5, 70 if tier == 'quick' else 160)
    loss, dup, delay = (rng.choice([0, 0.1, 0.4]), rng.choice([0, 0.1, 0.5]),
                        rng.choice([0, 0.3, 0.8]))
    for _ in range(n):
      r = rng.random()
      if r < 0.04:
        now += rng.choice([3600.0, 6 * 3600.0 + 7, 5.9 * 3600, 24 * 3600.0, 90000.5])
        ops.append(['clock', now])
      elif r < 0.06:
        ops.append(['reset', rng.randrange(2**31)])
        queue = [] if rng.random() < 0.5 else queue
        if rng.random() < 0.7:
          now = 0.0
      now += rng.choice([180.0, 180.0, 180.0, 10.0, 600.5])
      x += rng.uniform(-5e3, 5e3)
      y += rng.uniform(-5e3, 5e3)
      p = min(14500.0, max(4500.0, p + rng.choice(
          [0.0, rng.uniform(-80, 80), rng.uniform(-1500, 1500)])))
      m = [round(x, 3), round(y, 3), round(p, 3), round(now, 3),
           round(rng.gauss(0, 3), 3), round(rng.gauss(0, 3), 3)]
      if rng.random() < loss:
        ops.append(['lost', m[3]])
      else:
        if rng.random() < dup:
          queue.append((now + rng.choice([0, 0, 400, 4000]), 'duplicated', m))
        late = rng.random() < delay
        queue.append((now + (rng.choice([200, 900, 7000, 25000]) if late else 0),
                      'delayed' if late else 'direct', m))
      rng.shuffle(queue)
      due = [d for d in queue if d[0] <= now]
      queue = [d for d in queue if d[0] > now]
      for _, tag, m in due:
        ops.append(['arrive', tag, m])
      for _ in range(rng.choice([0, 0, 1, 1, 2])):
        ops.append(self.draw_query(rng, x, y, p, now))
      if rng.random() < 0.15:
        ops.append(['again'])
    ops.append(self.draw_query(rng, x, y, p, now))
    return {'cfg': cfg, 'ops': ops}

  def draw_query(self, rng, x, y, p, now):
    qx, qy = rng.choice([(x, y), (x + rng.uniform(-2e5, 2e5), y),
                         (rng.uniform(-6e5, 6e5), rng.uniform(-6e5, 6e5))])
    t = rng.choice([now, now, now, max(0.0, now - rng.uniform(0, 9 * 3600)),
                    now + rng.uniform(0, 5 * 3600), now + 40 * 3600.0])
    k = rng.choice([0, 1, 2, 7, 31])
    ps = [round(rng.choice([p, rng.uniform(4500, 14500)]), 3)
          for _ in range(k)]
    return ['query', round(qx, 3), round(qy, 3), round(t, 3), ps or round(p, 3)]

  def generate_flight(self, rng, tier):
    cfg = flight.draw_cfg(rng, 'env')
    cfg['mode'] = 'flight'
    ops, left = [], rng.randint(40, 200 if tier == 'quick' else 400)
    while left > 0:
      r = rng.random()
      if r < 0.3:
        ops.append(rng.choice([
            ['fault', 'teleport', rng.uniform(-3e5, 3e5), rng.uniform(-3e5, 3e5)],
            ['fault', 'pressure', round(rng.uniform(6600, 11800), 2)],
            ['elapse', rng.choice([1800, 3 * 3600, 6 * 3600 + 10, 30 * 3600])]]))
      elif r > 0.97:
        ops.append(rng.choice([['reset'], ['seed', rng.randrange(2**31)]]))
      k = min(left, rng.choice([1, 3, 10, 30, 60]))
      ops.append(['act', flight.draw_actions(rng, k)])
      ops.append(['query', None, None, None, [
          round(rng.uniform(5000, 14000), 2) for _ in range(5)]])
      left -= k
    return {'cfg': cfg, 'ops': ops}

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.got = []
    if plan['cfg']['mode'] == 'channel':
      self.run_channel(plan, ctx)
    else:
      self.run_flight(plan, ctx)

  def run_channel(self, plan, ctx):
    L = flight.Lib
    cfg = plan['cfg']
    field = fields.make(cfg['field'], cfg['speed'])
    start = L.units.datetime(2013, 3, 25)
    field.reset(L.jax.random.PRNGKey(cfg['seed']), start)
    gp = self.wind_gp.WindGP(field)
    known, last = [], None
    for op in plan['ops']:
      if op[0] == 'arrive':
        m = op[2]
        self.arrive(gp, field, m)
        known.append(tuple(m))
        if op[1] != 'direct':
          ctx.fault(op[1])
        last = None
      elif op[0] == 'lost':
        ctx.fault('lost')
      elif op[0] == 'clock':
        ctx.fault('clock_jump')
      elif op[0] == 'reset':
        field = fields.make(cfg['field'], cfg['speed'])
        field.reset(L.jax.random.PRNGKey(op[1]), start)
        gp.reset(field)
        known, last = [], None
        ctx.fault('reset')
      elif op[0] == 'query':
        self.ask(gp, field, known, op, ctx)
        last = last or (op, self.got[-1])
      elif op[0] == 'again' and last is not None:
        self.ask(gp, field, known, last[0], ctx)
        ctx.check(self.same(self.got[-1], last[1]), 'repeated-query-differs',
                  lambda: f'{last[0]}')
        ctx.probe('repeated_query')

  def same(self, a, b):
    np = flight.Lib.np
    return all(np.array_equal(p, q) for p, q in zip(a, b))

  def arrive(self, gp, field, m):
    L = flight.Lib
    u = L.units
    x, y = u.Distance(m=m[0]), u.Distance(m=m[1])
    t = dt.timedelta(seconds=m[3])
    f = field.get_forecast(x, y, m[2], t)
    gp.observe(x, y, m[2], t, L.wind_field.WindVector(
        f.u + u.Velocity(mps=m[4]), f.v + u.Velocity(mps=m[5])))

  def ask(self, gp, field, known, op, ctx):
    from sim.ref import windgp
    L = flight.Lib
    np, u = L.np, L.units
    _, x, y, t, ps = op
    single = not isinstance(ps, list)
    levels = [ps] if single else ps
    q = np.array([[x, y, p, t] for p in levels])
    keep = q.copy()
    if single:
      mean, dev = gp.query(u.Distance(m=x), u.Distance(m=y), ps,
                           dt.timedelta(seconds=t))
      mean, dev = np.reshape(mean, (1, 2)), np.reshape(dev, (1,))
    else:
      mean, dev = gp.query_batch(q)
    ctx.check(np.array_equal(q, keep), 'query-changed-its-argument', '')
    mean, dev = np.array(mean), np.array(dev)
    self.got.append((mean, dev))
    f = np.array([[w.u.meters_per_second, w.v.meters_per_second] for w in
                  (field.get_forecast(u.Distance(m=x), u.Distance(m=y), p,
                                      dt.timedelta(seconds=t)) for p in levels)])
    ctx.check(mean.shape == (len(levels), 2) and dev.shape == (len(levels),),
              'shape', lambda: f'{mean.shape} {dev.shape}')
    ctx.check(bool(np.all(np.isfinite(mean)) and np.all(np.isfinite(dev))),
              'not-finite', '')
    wants = [windgp.posterior(known, q, tie) for tie in
             ((False, True) if windgp.has_tie(known, t) else (False,))]
    used = wants[0][2]
    ok = err = None
    for em, ev, _ in wants:
      if len(known) == 0 and np.all(dev == 0.0):
        ctx.finding('E11-empty-prior', 'uncertainty',
                    'uncertainty 0 although nothing was measured')
        ev = dev
      err = max(float(np.max(np.abs(mean - f - em))),
                float(np.max(np.abs(dev - ev))))
      dm = float(np.max(np.abs(mean - f - em)))
      ok = ok or err < 1e-5
    ctx.check(ok, 'mean' if dm >= 1e-5 else 'uncertainty',
              lambda: f'off by {err} at {op} with {used} of {len(known)} '
                      f'measurements in the window')
    ctx.check(bool(np.all(dev >= -1e-9) and np.all(dev <= 1 + 1e-9)),
              'uncertainty-range', lambda: str(dev))
    ctx.state('q', min(used, 40), used == len(known), len(levels),
              int(np.mean(dev) * 8))
    ctx.log('query', op, mean, dev)
    if used < len(known):
      ctx.probe('stale_excluded')
    if known and not used:
      ctx.probe('all_stale')

  def run_flight(self, plan, ctx):
    L = flight.Lib
    w = flight.World(plan['cfg'], ctx)
    known = []

    def note():
      b = w.state
      g = w.wind()
      f = w.wind_field.get_forecast(b.x, b.y, b.pressure, b.time_elapsed)
      known.append((b.x.meters, b.y.meters, float(b.pressure),
                    b.time_elapsed.total_seconds(),
                    (g.u - f.u).meters_per_second,
                    (g.v - f.v).meters_per_second))

    note()
    for op in plan['ops']:
      if op[0] == 'act':
        for letter in op[1]:
          if w.terminal:
            w.reset()
            known.clear()
            note()
            ctx.probe('reset_after_failure')
          w.step(letter)
          note()
          ctx.log('step', letter, known[-1])
      elif op[0] == 'fault':
        if not w.terminal:
          w.inject(op[1], op[2:])
      elif op[0] == 'elapse':
        b = copy.copy(w.state)
        b.time_elapsed = b.time_elapsed + dt.timedelta(seconds=op[1])
        b.date_time = b.date_time + dt.timedelta(seconds=op[1])
        w.state = b
        ctx.fault('clock_jump')
      elif op[0] in ('reset', 'seed'):
        w.reset(op[1] if op[0] == 'seed' else None)
        known.clear()
        note()
        ctx.fault('early_reset')
      elif op[0] == 'query':
        b = w.state
        gp = w.arena.feature_constructor.windgp
        q = ['query', b.x.meters, b.y.meters, b.time_elapsed.total_seconds(),
             op[4] + [float(b.pressure)]]
        self.ask(gp, w.wind_field, known, q, ctx)

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[1]) > 1:
        h = len(op[1]) // 2
        for part in (op[1][:h], op[1][:-1]):
          yield dict(plan, ops=plan['ops'][:i] + [['act', part]] +
                     plan['ops'][i + 1:])
      if op[0] == 'query' and isinstance(op[4], list) and len(op[4]) > 1:
        yield dict(plan, ops=plan['ops'][:i] + [op[:4] + [op[4][:1]]] +
                   plan['ops'][i + 1:])
    if plan['cfg'].get('field') != 'simple':
      yield dict(plan, cfg=dict(plan['cfg'], field='simple'))

  def nontrivial(self, plan, ctx):
    return len(self.got) >= (8 if plan['cfg']['mode'] == 'channel' else 3)


PROP = E11()
