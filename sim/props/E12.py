"""E12: the weather of an episode is fixed, consistent and well defined."""
import copy
import datetime as dt
import pickle
import random

from sim import clock
from sim import core
from sim import fields
from sim import flight

KINDS = ('simple', 'grid', 'grid', 'decoder', 'decoder', 'decoder_old', 'storm')
GRID = ('grid', 'decoder', 'decoder_old')


class E12(core.Prop):
  id = 'E12'
  title = 'The weather of an episode is fixed, consistent and well defined'
  rule = ('seeded interleavings of queries, resets, copies and unrelated tasks '
          'on several wind fields at once; each answer is compared with every '
          'earlier answer for the same weather and place, with a reference '
          'interpolation of the sampled grid and with the other ways to ask; '
          'non-trivial: at least 20 answers compared')
  technique = ('seeded interleavings with injected resets, copies and clock '
               'jumps against a reference interpolation and query memory')
  runs = {'quick': 160, 'thorough': 5000}
  real = ['WindField, SimplexWindNoise, SimpleStaticWindField, '
          'GridBasedWindField, GenerativeWindFieldSampler, '
          'GenerativeWindField, VAE decoder network']
  stub = ['trained decoder weights (random ones of the same shape), random '
          'grid sampler, analytic storm']
  assumptions = ['pressures are floats, elapsed times are not negative']

  def setup(self):
    flight.Lib.load()
    fields.weights()
    from balloon_learning_environment.generative import vae
    s = vae.FieldShape()
    np = flight.Lib.np
    # The documented grid, written down once more.
    self.axes = (np.linspace(-500, 500, s.latlng_slices),
                 np.linspace(-500, 500, s.latlng_slices),
                 np.linspace(5000, 14000, s.pressure_slices),
                 np.linspace(0, 48, s.time_slices))

  def generate(self, rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    keys = [rng.randrange(2**31) for _ in range(rng.choice([1, 2, 3]))]
    if len(keys) > 1 and rng.random() < 0.3:
      keys[1] = keys[0] + 1
    kinds = [rng.choice(KINDS)] if rng.random() < 0.5 else list(KINDS)
    objs = [{'kind': rng.choice(kinds), 'speed': 12.0} for _ in range(n)]
    ops = [['reset', i, rng.choice(keys)] for i in range(n)]
    places = [self.place(rng) for _ in range(rng.randint(3, 12))]
    for _ in range(rng.randint(40, 110 if tier == 'quick' else 300)):
      i = rng.randrange(n)
      r = rng.random()
      x, y, p, t = (rng.choice(places) if rng.random() < 0.75
                    else self.place(rng))
      if r < 0.30:
        ops.append(['point', i, x, y, p, t])
      elif r < 0.50:
        ops.append(['truth', i, x, y, p, t])
      elif r < 0.66:
        ps = [p] + [self.place(rng)[2] for _ in range(rng.choice([0, 1, 5, 20]))]
        rng.shuffle(ps)
        ops.append(['column', i, x, y, ps, t])
      elif r < 0.72:
        ops.append(['near', i, x, y, p, t])
      elif r < 0.82:
        ops.append(['reset', i, rng.choice(keys)])
      elif r < 0.88:
        ops.append(['copy', i, rng.choice(['deepcopy', 'pickle'])])
      elif r < 0.93:
        ops.append(['noise_task', rng.choice(['global_random', 'clock', 'jax']),
                    rng.randrange(10**6)])
      elif r < 0.97:
        ops.append(['new', i])
        ops.append(['reset', i, rng.choice(keys)])
      else:
        ops.append(['survey', i, rng.randrange(10**6)])
    return {'cfg': {'objs': objs}, 'ops': ops}

  def place(self, rng):
    """Where boundaries, grid points, horizons and the far outside matter."""
    def coord():
      return rng.choice([
          rng.uniform(-5e5, 5e5), rng.uniform(-5e5, 5e5), rng.uniform(-3e6, 3e6),
          rng.choice([-5e5, 5e5, 0.0, 5e4, -4.5e5, 5.00001e5, 49999.99, 1e8])])
    p = rng.choice([rng.uniform(5000, 14000), rng.uniform(5000, 14000),
                    rng.uniform(1.0, 1e5), rng.choice(
                        [5000.0, 14000.0, 6000.0, 7999.999, 8000.0, 10000.0,
                         11999.999, 12000.0, 4999.99, 14000.01])])
    h = rng.choice([rng.uniform(0, 48), rng.uniform(0, 48), rng.uniform(48, 200),
                    rng.uniform(0, 3000), rng.choice(
                        [0.0, 6.0, 47.9999, 48.0, 48.0001, 72.0, 95.9999, 96.0,
                         96.0001, 100.0, 144.0, 143.99])])
    return [round(coord(), 4), round(coord(), 4), round(p, 5),
            round(h * 3600.0, 4)]

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    L = flight.Lib
    self.L, self.ctx = L, ctx
    self.start = L.units.datetime(2013, 3, 25, 7)
    self.objs = []
    for o in plan['cfg']['objs']:
      self.objs.append({'kind': o['kind'], 'speed': o['speed'], 'key': None,
                        'f': fields.make(o['kind'], o['speed']), 'copies': []})
    # (kind, key) -> {(how, place) -> answer}
    self.memory = {}
    self.answers = 0
    for op in plan['ops']:
      getattr(self, 'op_' + op[0])(*op[1:])
      ctx.log(op)

  def q(self, x, y, t):
    u = self.L.units
    return u.Distance(m=x), u.Distance(m=y), dt.timedelta(seconds=t)

  def uv(self, w):
    return (float(w.u.meters_per_second), float(w.v.meters_per_second))

  def op_new(self, i):
    o = self.objs[i]
    o['f'], o['key'], o['copies'] = fields.make(o['kind'], o['speed']), None, []
    if o['kind'] in GRID:
      x, y, t = self.q(0.0, 0.0, 0.0)
      try:
        o['f'].get_forecast(x, y, 9000.0, t)
      except RuntimeError:
        pass
      else:
        self.ctx.check(False, 'answer-before-reset', o['kind'])
    self.ctx.fault('object_replaced')

  def op_reset(self, i, key):
    o = self.objs[i]
    o['f'].reset(self.L.jax.random.PRNGKey(key), self.start)
    o['key'], o['copies'] = key, []
    self.ctx.fault('reset')

  def op_copy(self, i, how):
    o = self.objs[i]
    o['copies'] = (o['copies'] + [
        copy.deepcopy(o['f']) if how == 'deepcopy' else
        pickle.loads(pickle.dumps(o['f']))])[-2:]
    self.ctx.fault('copy:' + how)

  def op_noise_task(self, what, n):
    if what == 'global_random':
      self.L.np.random.seed(n % 2**32)
      random.seed(n)
      self.L.np.random.rand(3)
    elif what == 'clock':
      clock.CLOCK.jump(n - 500000)
    else:
      self.L.jax.random.normal(self.L.jax.random.PRNGKey(n), (3,))
    self.ctx.fault('noise_task:' + what)

  def ask(self, o, f, how, x, y, p, t):
    dx, dy, d = self.q(x, y, t)
    if how == 'point':
      return self.uv(f.get_forecast(dx, dy, p, d))
    return self.uv(f.get_ground_truth(dx, dy, p, d))

  def op_point(self, i, x, y, p, t, how='point'):
    o = self.objs[i]
    ctx = self.ctx
    got = self.ask(o, o['f'], how, x, y, p, t)
    ctx.check(all(abs(c) < 1e6 for c in got), 'not-finite', lambda: f'{got}')
    mem = self.memory.setdefault((o['kind'], o['key']), {})
    place = (how, x, y, p, t)
    if place in mem:
      ctx.probe('same_question')
      ctx.check(mem[place] == got, 'answer-changed',
                lambda: f'{o["kind"]} {place}: {mem[place]} then {got}')
    mem[place] = got
    for c in o['copies']:
      ctx.check(self.ask(o, c, how, x, y, p, t) == got, 'copy-differs',
                lambda: f'{o["kind"]} {place}')
    self.answers += 1
    if how == 'point':
      self.compare(o, x, y, p, t, got)
    ctx.state(how, o['kind'], abs(x) > 5e5, abs(y) > 5e5, p < 5000, p > 14000,
              int(t // (48 * 3600)) % 4, t == 0)
    return got

  def op_truth(self, i, x, y, p, t):
    truth = self.op_point(i, x, y, p, t, 'truth')
    f = self.op_point(i, x, y, p, t)
    noise = (truth[0] - f[0], truth[1] - f[1])
    self.ctx.check(max(map(abs, noise)) < 12.0 and max(map(abs, noise)) > 0.0,
                   'noise-size', lambda: str(noise))
    o = self.objs[i]
    # Other weather at the same place has other noise.
    for (kind, key), mem in self.memory.items():
      if kind == o['kind'] and key != o['key']:
        other = mem.get(('truth', x, y, p, t))
        if other is not None:
          self.ctx.check(other != truth, 'same-weather-for-two-keys',
                         lambda: f'{kind} {key} {o["key"]}')
          self.ctx.probe('compared_with_other_key')
          of = mem.get(('point', x, y, p, t))
          if of is not None and kind in GRID:
            self.ctx.check(of != f, 'same-forecast-for-two-keys',
                           lambda: f'{kind} {key} {o["key"]}')
    return noise

  def op_column(self, i, x, y, ps, t):
    o = self.objs[i]
    dx, dy, d = self.q(x, y, t)
    given = list(ps)
    col = o['f'].get_forecast_column(dx, dy, ps, d)
    self.ctx.check(list(ps) == given, 'argument-changed', '')
    self.ctx.check(len(col) == len(ps), 'column-length', '')
    for p, w in list(zip(ps, col))[:8]:
      point = self.op_point(i, x, y, p, t)
      got = self.uv(w)
      self.ctx.check(max(abs(a - b) for a, b in zip(got, point)) < 1e-4,
                     'column-differs-from-point',
                     lambda: f'{o["kind"]} {(x, y, p, t)}: {got} {point}')
    self.ctx.probe('column')

  def op_near(self, i, x, y, p, t):
    """The noise has no jumps, wherever the forecast may have them."""
    a = self.op_truth(i, x, y, p, t)
    b = self.op_truth(i, x + 10.0, y - 10.0, p + 0.02, t + 3.6)
    self.ctx.check(max(abs(u - v) for u, v in zip(a, b)) < 0.05, 'noise-jumps',
                   lambda: f'{a} {b} at {(x, y, p, t)}')

  def op_survey(self, i, seed):
    """Noise of the documented size that varies along every axis."""
    o = self.objs[i]
    r = core.prng('survey', seed)
    us, vs = [], []

    def noise(x, y, p, t):
      a = self.ask(o, o['f'], 'truth', x, y, p, t)
      b = self.ask(o, o['f'], 'point', x, y, p, t)
      return a[0] - b[0], a[1] - b[1]

    for _ in range(60):
      n = noise(r.uniform(-1e6, 1e6), r.uniform(-1e6, 1e6),
                r.uniform(5000, 14000), r.uniform(0, 3.6e6))
      us.append(n[0])
      vs.append(n[1])
    for w in (us, vs):
      rms = (sum(a * a for a in w) / len(w)) ** 0.5
      self.ctx.check(0.5 < rms < 1.7, 'noise-size', lambda: f'rms {rms}')
    same = sum(abs(a - b) < 1e-6 for a, b in zip(us, vs))
    self.ctx.check(same < 30, 'noise-components-equal', '')
    base = [1e4, -2e4, 9000.0, 7200.0]
    for axis, step in enumerate((15e4, 15e4, 900.0, 36000.0)):
      there = list(base)
      there[axis] += step
      a, b = noise(*base), noise(*there)
      self.ctx.check(abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1e-6,
                     'noise-constant-along-axis', lambda: str(axis))
    self.ctx.probe('survey')

  def compare(self, o, x, y, p, t, got):
    """The reference value of a forecast."""
    np = self.L.np
    if o['kind'] == 'simple':
      want = ((10, 0) if p < 8000 else (0, 10) if p < 10000 else
              (-10, 0) if p < 12000 else (0, -10))
      self.ctx.check(got == want, 'forecast', lambda: f'{p}: {got}')
      return
    if o['kind'] not in GRID:
      return
    h = (t / 3600.0) % 96.0
    h = 96.0 - h if h > 48.0 else h
    point = (min(500.0, max(-500.0, x / 1e3)), min(500.0, max(-500.0, y / 1e3)),
             min(14000.0, max(5000.0, p)), h)
    f = np.asarray(o['f'].field, dtype=np.float64)
    idx, frac = [], []
    for a, v in zip(self.axes, point):
      k = int(min(len(a) - 2, max(0, (v - a[0]) // (a[1] - a[0]))))
      idx.append(k)
      frac.append((v - a[k]) / (a[k + 1] - a[k]))
    want = np.zeros(2)
    spread = 0.0
    for corner in range(16):
      w, c = 1.0, []
      for d in range(4):
        bit = corner >> d & 1
        w *= frac[d] if bit else 1.0 - frac[d]
        c.append(idx[d] + bit)
      want = want + w * f[tuple(c)]
      spread = max(spread, float(np.max(np.abs(f[tuple(c)]))))
    err = float(np.max(np.abs(want - np.array(got))))
    self.ctx.check(err < 1e-4 * (1.0 + spread), 'forecast',
                   lambda: f'{o["kind"]} {(x, y, p, t)}: {got} instead of {want}')

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'column' and len(op[4]) > 1:
        yield dict(plan, ops=plan['ops'][:i] + [op[:4] + [op[4][:1]] + op[5:]] +
                   plan['ops'][i + 1:])

  def nontrivial(self, plan, ctx):
    return self.answers >= 20


PROP = E12()
