"""E16: pictures show the flight of this episode, and only look at it."""
import copy

from sim import core
from sim import flight

MODES = ('human', 'rgb_array', 'tensorboard')
DPI = 30


class E16(flight.FlightProp):
  id = 'E16'
  title = 'Pictures show the flight of this episode, and only look at it'
  rule = ('seeded flights of one or two environments with renderers, with '
          'disturbances, resets and pictures in every mode at drawn moments; '
          'the states a renderer is given are compared with the flight, what '
          'is drawn with a reference, images with those of a new renderer '
          'that was shown only this episode, and observations and rewards '
          'with an environment that renders nothing; non-trivial: at least '
          'two pictures and ten steps')
  technique = ('seeded flights with rendering at drawn moments against an '
               'unrendered twin and fresh renderers')
  runs = {'quick': 100, 'thorough': 4000}
  levels = ('env',)
  kinds = ('gas_leak', 'battery', 'clock', 'teleport', 'pressure',
           'superpressure', 'safety_off')
  fields_ = ('simple', 'grid')
  real = ['BalloonEnv with arena, physics and safety layers',
          'MatplotlibRenderer', 'matplotlib with its Agg canvas', 'gym']
  stub = ['feature constructor reading a few state numbers',
          'pictures at 30 dots per inch', 'scripted summary writer']

  def setup(self):
    super().setup()
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from balloon_learning_environment.env.rendering import matplotlib_renderer
    from balloon_learning_environment.env.rendering import renderer
    self.plt, self.matplotlib = plt, matplotlib
    plt.rcParams['figure.dpi'] = DPI
    self.mpl = matplotlib_renderer.MatplotlibRenderer
    self.base = renderer.Renderer
    self.draw = self.mpl()       # draws references, in a figure of its own

  def generate(self, rng, tier):
    n = rng.choice([1, 1, 2])
    cfgs = []
    for _ in range(n):
      c = flight.draw_cfg(rng, 'env', self.fields_)
      c['features'] = 'stub'
      cfgs.append(c)
    ops = []
    if rng.random() < 0.25:
      ops.append([rng.randrange(n), 'render', rng.choice(MODES)])
    for _ in range(rng.randint(4, 12)):
      i = rng.randrange(n)
      r = rng.random()
      if r < 0.2:
        ops.append([i] + self.draw_fault(rng))
      elif r < 0.3:
        ops.append([i] + rng.choice([['reset'], ['seed', rng.randrange(2**31)]]))
        if rng.random() < 0.3:
          ops.append([i, 'render', rng.choice(MODES)])
      ops.append([i, 'act', flight.draw_actions(rng, rng.randint(1, 8))])
      r = rng.random()
      if r < 0.35:
        ops.append([i, 'render', rng.choice(MODES)])
      elif r < 0.42:
        ops.append([i, 'render', rng.choice(['ansi', '', 'RGB_ARRAY'])])
      elif r < 0.5:
        ops.append([i, 'summary', rng.choice([0, 0, 1, 17, None])])
    ops.append([rng.randrange(n), 'render', 'rgb_array'])
    return {'cfg': {'worlds': cfgs, 'plain_first': rng.random() < 0.5},
            'ops': ops}

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op[1] == 'act' and len(op[2]) > 1:
        for part in (op[2][:len(op[2]) // 2], op[2][1:]):
          yield dict(plan, ops=plan['ops'][:i] + [[op[0], 'act', part]] +
                     plan['ops'][i + 1:])

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('picture', 0) >= 1 and ctx.probes.get('step', 0) >= 5

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.frames = []
    ref = {f for f in self.plt.get_fignums()}
    worlds = []
    try:
      for i, cfg in enumerate(plan['cfg']['worlds']):
        worlds.append(self.make(i, cfg, ctx))
      for op in plan['ops']:
        self.op(ctx, worlds[op[0]], op)
      for frame, copy_ in self.frames:
        ctx.check(bool((frame == copy_).all()), 'image-changes-later',
                  'a later picture changed an image that was returned before')
    finally:
      for f in set(self.plt.get_fignums()) - ref:
        self.plt.close(f)

  def make(self, i, cfg, ctx):
    prop = self
    w = {'i': i, 'calls': [], 'shown': [], 'writes': []}
    inner = self.mpl()
    w['fig'] = self.plt.figure(max(self.plt.get_fignums()))

    class Tee(self.base):
      """Sees what the environment tells its renderer, and passes it on."""

      def reset(self):
        w['calls'].append(('reset', None))
        return inner.reset()

      def step(self, state):
        w['calls'].append(('step', flight.numbers(state.balloon_state)))
        return inner.step(state)

      def render(self, mode, summary_writer=None, iteration=None):
        w['calls'].append(('render', mode))
        return inner.render(mode, summary_writer, iteration)

      @property
      def render_modes(self):
        return inner.render_modes

    w['inner'] = inner
    w['live'] = flight.World(cfg, ctx, renderer=Tee())
    w['twin'] = flight.World(cfg, Quiet())
    n = self.show(w)
    # Construction resets, and so does this world.
    want = [('reset', None), ('step', n)]
    ctx.check(w['calls'][-2:] == want and len(w['calls']) == 4, 'wrong-calls',
              lambda: f'construction and reset: {names(w["calls"])}')
    ctx.check(tuple(w['live'].env.metadata['render.modes']) == MODES,
              'wrong-modes', lambda: str(w['live'].env.metadata))
    ctx.check(w['twin'].env.render() is None and
              w['twin'].env.render('rgb_array') is None, 'wrong-image',
              'an environment without renderer renders something')
    self.same(ctx, w, 'reset')
    w['calls'].clear()
    return w

  def show(self, w, new=True):
    """Remembers the state the flight is in now."""
    if new:
      w['shown'] = []
    s = copy.copy(w['live'].arena.get_simulator_state())
    s.balloon_state = copy.copy(s.balloon_state)   # the flight goes on with it
    w['shown'].append(s)
    return flight.numbers(w['shown'][-1].balloon_state)

  def same(self, ctx, w, what):
    """The unrendered twin is in the same place."""
    a, b = w['live'], w['twin']
    n, m = flight.numbers(a.state), flight.numbers(b.state)
    ctx.check(n == m and (a.obs == b.obs).all() and
              (a.reward, a.terminal, a.info) == (b.reward, b.terminal, b.info),
              'influences-flight', lambda: f'world {w["i"]}, {what}: differs '
              f'from the flight without renderer in '
              f'{[k for k in n if n[k] != m[k]]}, reward {a.reward!r}, '
              f'{b.reward!r}')

  def op(self, ctx, w, op):
    kind = op[1]
    live, twin = w['live'], w['twin']
    if kind == 'act':
      for letter in op[2]:
        if live.terminal:
          self.again(ctx, w, None)
        live.step(letter)
        twin.step(letter)
        n = self.show(w, False)
        ctx.check(w['calls'] == [('step', n)], 'wrong-calls', lambda:
                  f'world {w["i"]}, a step: the renderer saw '
                  f'{names(w["calls"])}' + ('' if len(w['calls']) != 1 else
                                            ' with another state'))
        w['calls'].clear()
        self.same(ctx, w, 'step')
        ctx.log('step', w['i'], letter, n['x'], n['pressure'], n['battery_wh'])
        ctx.probe('step')
    elif kind == 'fault':
      if not live.terminal:
        live.inject(op[2], op[3:])
        twin.inject(op[2], op[3:])
        ctx.check(not w['calls'], 'wrong-calls', 'the renderer saw a fault')
    elif kind in ('reset', 'seed'):
      self.again(ctx, w, op[2] if kind == 'seed' else None)
    elif kind == 'summary':
      self.summary(ctx, w, op[2])
    else:
      self.picture(ctx, w, op[2])

  def again(self, ctx, w, seed):
    w['live'].reset(seed)
    w['twin'].reset(seed)
    # The safety switch is put back after the renderer has seen the state.
    n = flight.numbers(w['live'].state)
    ctx.check(w['calls'] == [('reset', None), ('step', n)], 'wrong-calls',
              lambda: f'world {w["i"]}, reset: the renderer saw '
              f'{names(w["calls"])}')
    w['calls'].clear()
    self.show(w)
    self.same(ctx, w, 'reset')
    ctx.log('reset', w['i'], n['x'])
    ctx.probe('episode')

  def picture(self, ctx, w, mode):
    np = flight.Lib.np
    what = f'world {w["i"]}, {mode} after {len(w["shown"])} states'
    got = error = None
    try:
      got = w['live'].env.render(mode)
    except ValueError as e:
      error = e
    ctx.check(w['calls'] == [('render', mode)], 'wrong-calls', lambda:
              f'{what}: {names(w["calls"])}')
    w['calls'].clear()
    ctx.check((error is not None) == (mode not in MODES), 'wrong-modes',
              lambda: f'{what}: {error!r}')
    self.same(ctx, w, what)
    ctx.state('render', mode, min(len(w['shown']), 6))
    ctx.log('render', w['i'], mode)
    if error is not None:
      ctx.probe('refused_mode')
      return
    if mode != 'tensorboard':
      self.drawn(ctx, w, what)
    if mode == 'rgb_array':
      self.image(ctx, w, got, what)
    else:
      ctx.check(got is None, 'wrong-image', lambda: f'{what}: {type(got)}')
    ctx.probe('picture')

  def image(self, ctx, w, got, what):
    np = flight.Lib.np
    ctx.check(isinstance(got, np.ndarray) and got.dtype == np.uint8 and
              got.shape == (10 * DPI, 15 * DPI, 3), 'wrong-image', lambda:
              f'{what}: {type(got)} {getattr(got, "shape", None)}')
    ref = self.draw
    ref.reset()
    for s in w['shown']:
      ref.step(s)
    want = ref.render('rgb_array')
    ctx.check(np.array_equal(got, want), 'other-history', lambda: f'{what}: '
              f'{int((got != want).any(-1).sum())} pixels differ from a new '
              f'picture of this episode')
    ctx.check(len(np.unique(got.reshape(-1, 3), axis=0)) > 3, 'wrong-image',
              f'{what}: blank')
    self.frames.append((got, got.copy()))

  def summary(self, ctx, w, iteration):
    """The picture goes to a summary, at the iteration it belongs to."""
    np = flight.Lib.np
    writes = []

    class Writer:

      def image(self, tag, image, step, **kw):
        writes.append((tag, np.array(image), step))

      def flush(self):
        writes.append('flush')

    w['inner'].render('tensorboard', Writer(), iteration)
    what = f'world {w["i"]}, summary at {iteration}'
    if iteration is None:
      ctx.check(not writes, 'wrong-summary', f'{what}: {len(writes)} writes')
    else:
      ctx.check(len(writes) == 2 and writes[1] == 'flush' and
                writes[0][2] == iteration, 'wrong-summary', lambda:
                f'{what}: {[x if x == "flush" else x[2] for x in writes]}')
      self.image(ctx, w, writes[0][1], what)
    self.same(ctx, w, what)
    ctx.log('summary', w['i'], iteration)
    ctx.probe('summary')

  def drawn(self, ctx, w, what):
    """The curves: the way flown, over ground and in height, and the charge."""
    np = flight.Lib.np
    n = [flight.numbers(s.balloon_state) for s in w['shown']]
    x = [v['x'] / 1e3 for v in n]
    y = [v['y'] / 1e3 for v in n]
    z = [w['shown'][i].atmosphere.at_pressure(v['pressure']).height.kilometers
         for i, v in enumerate(n)]
    soc = [100 * v['battery_wh'] / v['capacity_wh'] for v in n]
    when = [v['date_time'] for v in n]
    lines3, lines2 = [], []
    for ax in w['fig'].axes:
      for line in ax.lines:
        if hasattr(line, 'get_data_3d'):
          lines3.append([np.asarray(c, float) for c in line.get_data_3d()])
        else:
          a, b = line.get_data(orig=True)
          lines2.append((list(a), np.asarray(b, float)))
    def near(a, b):
      return len(a) == len(b) and np.allclose(np.asarray(a, float), b,
                                              rtol=1e-9, atol=1e-9)
    ctx.check(any(near(l[0], x) and near(l[1], y) and near(l[2], z)
                  for l in lines3), 'wrong-path', lambda: f'{what}: the way '
              f'flown is not drawn ({[len(l[0]) for l in lines3]} points)')
    flat = [l for l in lines2 if len(l[0]) == len(n) and
            not hasattr(l[0][0], 'year')]
    ctx.check(any(near(l[0], x) and near(l[1], y) for l in flat),
              'wrong-path', lambda: f'{what}: the way over ground is not drawn')
    timed = [l for l in lines2 if len(l[0]) == len(n) and
             hasattr(l[0][0], 'year')]
    ctx.check(any(l[0] == when and near(l[1], soc) for l in timed),
              'wrong-charge', lambda: f'{what}: the charge is not drawn')


class Quiet:
  """A context for the twin: its events are not counted."""
  sim_seconds = 0

  def fault(self, *a):
    pass


def names(calls):
  return [c[0] for c in calls]


PROP = E16()
