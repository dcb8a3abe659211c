"""E13: a saved simulator state resumes the same flight."""
import copy
import pickle

from sim import clock
from sim import core
from sim import flight


class E13(core.Prop):
  id = 'E13'
  title = 'A saved simulator state resumes the same flight'
  rule = ('seeded flights saved at random steps and resumed, after crashes, in '
          'the same, another or a new arena, through copying or serialisation '
          'and interleaved with other flights; compared step by step with the '
          'uninterrupted flight; non-trivial: at least 2 resumed flights of '
          '5 steps')
  technique = ('seeded crash and restore points against the uninterrupted '
               'execution')
  runs = {'quick': 96, 'thorough': 3000}
  real = ['BalloonEnv, BalloonArena, SimulatorState, balloon and safety '
          'layers, wind fields, features, WindGP']
  stub = ['wind decoder weights']
  assumptions = ['a saved state is used once; it is copied to be used again']

  def setup(self):
    flight.Lib.load()

  def generate(self, rng, tier):
    cfg = flight.draw_cfg(rng, 'env')
    cfg['power_safety'] = True
    if rng.random() < 0.4:
      cfg['features'] = 'stub'
    n = rng.randint(15, 70 if tier == 'quick' else 200)
    ops, snaps = [], 0
    while n > 0:
      r = rng.random()
      if r < 0.25:
        ops.append(flight.draw_fault(rng, (
            'battery', 'battery', 'clock', 'teleport', 'pressure',
            'superpressure', 'air_fill', 'infrared', 'heat')))
      if rng.random() < 0.5 or not snaps:
        ops.append(['save', rng.choice(['deepcopy', 'pickle', 'pickle'])])
        snaps += 1
      k = min(n, rng.choice([1, 2, 4, 8, 16, 30]))
      ops.append(['act', flight.draw_actions(rng, k)])
      n -= k
    for _ in range(rng.randint(2, 5)):
      ops.append(['resume', rng.randrange(snaps),
                  rng.choice(['same', 'other', 'fresh', 'fresh']),
                  rng.choice([0, 0, 1, 7, 25]),       # steps flown there before
                  rng.choice([3, 8, 20, 60]),         # steps resumed
                  rng.choice([0, 0, 2, 5]),           # saved again after these
                  rng.random() < 0.4,                 # other flight interleaved
                  rng.randrange(2**31)])
    return {'cfg': cfg, 'ops': ops}

  # -- execution -----------------------------------------------------------

  def world(self, cfg, ctx, seed=None):
    return flight.World(cfg if seed is None else dict(cfg, seed=seed), ctx)

  def record(self, w):
    return (flight.numbers(w.state), w.reward, w.terminal,
            None if w.obs is None else w.obs.copy(),
            bool(w.state.navigation_is_paused))

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    w = self.world(cfg, ctx)
    control = self.world(cfg, ctx)   # the same flight, never saved
    self.resumed = 0
    hist, saves = [], []
    for op in plan['ops']:
      if op[0] == 'act':
        for letter in op[1]:
          if w.terminal:
            break
          w.step(letter)
          control.step(letter)
          hist.append((('act', letter), self.record(w)))
          self.same(ctx, 'saving-disturbs', hist[-1][1], self.record(control))
          ctx.log(letter, hist[-1][1][0]['x'], hist[-1][1][3])
          ctx.state(*flight.bucket(hist[-1][1][0]))
      elif op[0] == 'fault':
        if not w.terminal:
          for v in (w, control):
            v.inject(op[1], op[2:])
          hist.append((op, None))
      elif op[0] == 'save':
        s = w.arena.get_simulator_state()
        saves.append((len(hist), op[1], copy.deepcopy(s) if op[1] == 'deepcopy'
                      else pickle.dumps(s)))
        ctx.fault('save:' + op[1])
      elif op[0] == 'resume':
        if op[1] < len(saves):
          self.resume(plan, ctx, w, hist, saves[op[1]], op)

  def thaw(self, save):
    return (copy.deepcopy(save[2]) if save[1] == 'deepcopy'
            else pickle.loads(save[2]))

  def resume(self, plan, ctx, w, hist, save, op):
    cfg = plan['cfg']
    _, _, where, dirty, length, again, interleaved, seed = op
    if where == 'same':
      target = w
    else:
      target = self.world(cfg, ctx, seed)
      ctx.fault('crash:new_objects')
      if where == 'other':
        dirty = max(dirty, 3)
    d = core.prng('dirty', seed)
    for _ in range(dirty):
      if not target.terminal and target.state.status.name == 'OK':
        target.step(d.choice('dsu'))
    clock.CLOCK.jump(d.choice([0, 5, 86400, -3600]))
    other = shadow = None
    if interleaved:
      other = self.world(cfg, ctx, seed + 1)
      shadow = [self.world(cfg, ctx, seed + 1)]
      for letter in 'dus':
        shadow[0].step(letter)
      want = self.record(shadow[0])
    target.arena.set_simulator_state(self.thaw(save))
    target.terminal = False
    ctx.fault('restore:' + where)
    now = flight.numbers(target.state)
    if save[0] > 0 and hist[save[0] - 1][1] is not None:
      before = hist[save[0] - 1][1][0]
      ctx.check(before == now, 'restored-state-differs',
                lambda: self.diff(before, now))
    done = 0
    for i, (what, rec) in enumerate(hist[save[0]:]):
      if done >= length:
        break
      if again and done == again and what[0] == 'act':
        # Saved again and moved to yet another arena, half way.
        s = pickle.dumps(target.arena.get_simulator_state())
        target = self.world(cfg, ctx, seed + 2 + i)
        target.arena.set_simulator_state(pickle.loads(s))
        again = 0
        ctx.fault('restore:chained')
      if what[0] != 'act':
        target.inject(what[1], what[2:])
        continue
      if other is not None and done < 3:
        other.step('dus'[done])
      target.step(what[1])
      done += 1
      self.same(ctx, 'resumed-flight-differs', rec, self.record(target))
      if target.terminal:
        break
    if other is not None and done >= 3:
      self.same(ctx, 'restore-disturbs-other', want, self.record(other))
    if done >= 5:
      self.resumed += 1
    ctx.log('resume', op, done)
    ctx.probe('resumed_steps', done)

  def diff(self, a, b):
    return str([(k, a[k], b[k]) for k in a if a[k] != b[k]])[:600]

  def same(self, ctx, klass, a, b):
    np = flight.Lib.np
    ctx.check(a[0] == b[0], klass + ':state', lambda: self.diff(a[0], b[0]))
    ctx.check(a[1] == b[1], klass + ':reward', lambda: f'{a[1]} {b[1]}')
    ctx.check(a[2] == b[2], klass + ':terminal', lambda: f'{a[2]} {b[2]}')
    ctx.check(a[4] == b[4], klass + ':paused', '')
    ctx.check(np.array_equal(a[3], b[3]), klass + ':observation', lambda: str(
        [(int(i), float(a[3][i]), float(b[3][i]))
         for i in np.flatnonzero(a[3] != b[3])[:8]]))

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[1]) > 1:
        h = len(op[1]) // 2
        for part in (op[1][:h], op[1][h:], op[1][:-1]):
          yield dict(plan, ops=plan['ops'][:i] + [['act', part]] +
                     plan['ops'][i + 1:])
      if op[0] == 'resume':
        for j, v in ((3, 0), (5, 0), (6, False), (2, 'fresh'), (1, 0)):
          if op[j] != v:
            yield dict(plan, ops=plan['ops'][:i] + [op[:j] + [v] + op[j + 1:]] +
                       plan['ops'][i + 1:])
    if plan['cfg'].get('field') != 'simple':
      yield dict(plan, cfg=dict(plan['cfg'], field='simple'))

  def nontrivial(self, plan, ctx):
    return self.resumed >= 2


PROP = E13()
