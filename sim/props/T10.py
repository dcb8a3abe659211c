"""T10: model weights load completely or fail as documented."""
import importlib.machinery
import os

from sim import core
from sim import faultfs
from sim import rl
from sim import scratch

FILES = {'wind': 'offlineskies22_decoder.msgpack', 'policy': 'perciatelli44.pb'}
LAYERS = 8


class T10(core.Prop):
  id = 'T10'
  title = 'Model weights load completely or fail as documented'
  rule = ('seeded histories of one process: weight files appear, change and '
          'vanish in the installed package, below two working directories and '
          'at given or configured paths (whole, empty, large, directories, '
          'dangling links), the process changes directory, loads run into I/O '
          'errors at drawn operations, and policies and wind fields are built '
          'from what is there; every result compared with the documented '
          'search order; non-trivial: at least three kinds of outcome')
  technique = ('seeded file system states and read faults against the '
               'documented search order')
  runs = {'quick': 6000, 'thorough': 200000}
  real = ['models.load_*, importlib.resources, Perciatelli44, '
          'QuantileAgent.load_perciatelli_weights']
  stub = ['package location and working directory in a scratch directory',
          'file system seam', 'small policy graphs']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.agents import perciatelli44
    from balloon_learning_environment.agents import quantile_agent
    from balloon_learning_environment.models import models
    import balloon_learning_environment.models as package
    self.models, self.package = models, package
    self.agent = perciatelli44.Perciatelli44
    self.quantile = quantile_agent.QuantileAgent
    self.graphs = {}

  def generate(self, rng, tier):
    cfg = {'seed': rng.randrange(2**31)}
    ops = []
    places = ['package', 'cwd0', 'cwd0', 'cwd1', 'given0', 'given1']
    for _ in range(rng.randint(2, 5)):
      ops.append(self.put_op(rng, places))
    for _ in range(rng.randint(3, 14)):
      r = rng.random()
      if r < 0.25:
        ops.append(self.put_op(rng, places))
      elif r < 0.32:
        ops.append(['cd', rng.randrange(2)])
      elif r < 0.40:
        ops.append(['configure', rng.choice(list(FILES)),
                    rng.choice([None, 'given0', 'given1', 'nowhere'])])
      elif r < 0.48:
        ops.append(['agent', rng.choice(['agent', 'params']),
                    rng.randrange(2**20)])
      else:
        fault = None
        if rng.random() < 0.35:
          fault = [rng.randrange(5), rng.choice(['eio', 'eacces', 'eagain'])]
        ops.append(['load', rng.choice(list(FILES)),
                    rng.choice([None] * 3 + ['given0', 'given1', 'nowhere',
                                             'empty', 'below a file']), fault])
    return {'cfg': cfg, 'ops': ops}

  def put_op(self, rng, places):
    what = rng.choice(['graph', 'bytes', 'bytes', 'empty', 'remove', 'remove',
                       'dir', 'dangling', 'large'])
    return ['put', rng.choice(list(FILES)), rng.choice(places), what,
            rng.randrange(3)]

  def nontrivial(self, plan, ctx):
    return sum(k.startswith('outcome') for k in ctx.probes) >= 3

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    root = self.root = scratch.fresh()
    home = os.getcwd()
    gin = rl.Lib.gin
    gin.clear_config()
    self.configured = dict.fromkeys(FILES)
    self.cwd = 0
    p = self.package
    saved = (p.__spec__.loader, p.__loader__, p.__file__, p.__path__)
    try:
      for d in ('package', 'given0', 'given1', 'cwd0', 'cwd1'):
        os.makedirs(os.path.dirname(self.path(d, 'wind')), exist_ok=True)
      init = os.path.join(root, 'package', '__init__.py')
      open(init, 'w').close()
      loader = importlib.machinery.SourceFileLoader(p.__name__, init)
      p.__spec__.loader = p.__loader__ = loader
      p.__file__, p.__path__ = init, [os.path.dirname(init)]
      os.chdir(os.path.join(root, 'cwd0'))
      for op in plan['ops']:
        getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
    finally:
      (p.__spec__.loader, p.__loader__, p.__file__, p.__path__) = saved
      os.chdir(home)
      gin.clear_config()
      scratch.drop(root)

  def path(self, place, which):
    if place == 'nowhere':
      return os.path.join(self.root, 'nowhere', 'weights')
    if place == 'empty':
      return ''
    if place == 'below a file':
      return os.path.join(self.root, 'package', '__init__.py', 'weights')
    if place.startswith('cwd'):
      return os.path.join(self.root, place, 'balloon_learning_environment',
                          'models', FILES[which])
    if place.startswith('given'):
      return os.path.join(self.root, place, which + '.weights')
    return os.path.join(self.root, place, FILES[which])

  def op_put(self, cfg, ctx, which, place, what, variant):
    path = self.path(place, which)
    if os.path.isdir(path) and not os.path.islink(path):
      os.rmdir(path)
    elif os.path.lexists(path):
      os.remove(path)
    if what == 'dir':
      os.mkdir(path)
    elif what == 'dangling':
      os.symlink(os.path.join(self.root, 'gone'), path)
    elif what != 'remove':
      with open(path, 'wb') as f:
        f.write(self.content(cfg, place, what, variant))
    ctx.state('put', place, what)

  def content(self, cfg, place, what, variant):
    if what == 'graph':
      return self.graph(variant)[0]
    n = {'bytes': 300, 'empty': -variant, 'large': 700000}[what] + variant
    unit = core.derive('bytes', cfg['seed'], place, variant).to_bytes(8, 'big')
    return b'' if not n else (unit * (n // 8 + 1))[:n]

  def op_cd(self, cfg, ctx, i):
    os.chdir(os.path.join(self.root, f'cwd{i}'))
    self.cwd = i

  def op_configure(self, cfg, ctx, which, place):
    self.configured[which] = place
    name = {'wind': 'load_offlineskies22', 'policy': 'load_perciatelli44'}[which]
    rl.Lib.gin.bind_parameter(
        f'{name}.path', None if place is None else self.path(place, which))

  # -- the documented search -------------------------------------------------

  def look(self, path):
    """'missing', 'odd' or the bytes."""
    if os.path.isfile(path):
      with open(path, 'rb') as f:
        return f.read()
    if os.path.isdir(path):
      return 'odd'
    if os.path.dirname(path).endswith('.py'):
      return 'odd'
    return 'missing'

  def expected(self, which, place):
    """(outcome, bytes): ok, value, runtime or odd (any failure will do)."""
    place = self.configured[which] if place is None else place
    if place is not None:
      found = self.look(self.path(place, which))
      if found == 'missing':
        return 'value', None
      return ('odd', None) if found == 'odd' else ('ok', found)
    for place in ('package', f'cwd{self.cwd}'):
      found = self.look(self.path(place, which))
      if found == 'odd':
        return 'odd', None
      if found != 'missing':
        return 'ok', found
    return 'runtime', None

  def op_load(self, cfg, ctx, which, place, fault):
    want, data = self.expected(which, place)
    load = {'wind': self.models.load_offlineskies22,
            'policy': self.models.load_perciatelli44}[which]
    args = () if place is None else (self.path(place, which),)
    fs = faultfs.FaultFS(self.root, ctx)
    if fault:
      fs.read_error = tuple(fault)
    got = error = None
    with fs.installed():
      try:
        got = load(*args)
      except Exception as e:  # noqa
        error = e
    given = place is not None or self.configured[which] is not None
    what = f'{which} weights, path {place or self.configured[which]}, ' \
        f'working directory {self.cwd}'
    ctx.probe('outcome_' + want)
    ctx.state(which, want, given, bool(fs.error_raised), type(error).__name__)
    ctx.log('load', which, place, want, len(got) if got is not None else None,
            type(error).__name__)
    if error is None:
      ctx.check(want == 'ok', 'found-nowhere', lambda: f'{what}: returned '
                f'{len(got)} bytes, expected {want}')
      ctx.check(isinstance(got, bytes) and got == data, 'wrong-bytes', lambda:
                f'{what}: returned {len(got)} bytes {bytes(got[:12])}, the '
                f'first location has {len(data)} bytes {data[:12]}')
      return
    if fs.error_raised:
      ctx.probe('outcome_fault')
      # "ValueError: if a path is specified but the weights can't be loaded."
      ctx.check(rl.is_io_error(error) or given and
                isinstance(error, ValueError), 'fault-hidden', lambda:
                f'{what}: {fs.error_raised} was reported as {error!r}')
      return
    ctx.check(want != 'ok', 'not-loaded', lambda: f'{what}: {error!r}, though '
              f'{len(data)} bytes are there')
    kind = {'value': ValueError, 'runtime': RuntimeError}.get(want)
    if kind:
      ctx.check(isinstance(error, kind), 'wrong-error', lambda: f'{what}: '
                f'{error!r} instead of {kind.__name__}')
    else:
      ctx.check(rl.is_io_error(error) or isinstance(
          error, (ValueError, RuntimeError)), 'wrong-error',
                lambda: f'{what}: {error!r}')

  # -- policies ------------------------------------------------------------

  def graph(self, variant):
    """A frozen policy with its own weights: (serialized, the weights)."""
    if variant in self.graphs:
      return self.graphs[variant]
    np, tf = rl.Lib.np, rl.Lib.tf
    r = np.random.RandomState(variant)
    w = r.normal(size=(1099, 3)).astype(np.float32)
    params, g = {}, tf.Graph()
    with g.as_default():
      x = tf.compat.v1.placeholder(tf.float32, (1, 1099), name='observation')
      q = tf.linalg.matmul(x, tf.constant(w, name='w'), name='q_values')
      tf.argmax(q, axis=1, name='sleepwalk_action')
      for i in range(LAYERS):
        name = 'Online/fully_connected' + (f'_{i}' if i else '')
        for part, shape in (('weights', (2, 2)), ('biases', (2,))):
          v = r.normal(size=shape).astype(np.float32)
          tf.constant(v, name=f'{name}/{part}')
          params[i, part] = v
    self.graphs[variant] = (g.as_graph_def().SerializeToString(), w, params)
    return self.graphs[variant]

  def op_agent(self, cfg, ctx, kind, seed):
    """Builds a policy from what the search finds, if that is a policy."""
    np = rl.Lib.np
    want, data = self.expected('policy', None)
    variant = next((v for v in range(3) if data == self.graph(v)[0]), None)
    if want == 'ok' and variant is None:
      return
    try:
      if kind == 'agent':
        agent = self.agent(3, [1099])
      else:
        params = self.quantile.load_perciatelli_weights()
    except Exception as e:  # noqa
      ctx.check(want != 'ok', 'not-loaded', f'building a policy: {e!r}')
      return
    ctx.check(want == 'ok', 'found-nowhere', f'a policy was built, expected '
              f'{want}')
    ctx.probe('outcome_policy')
    ctx.log('policy', kind, variant)
    _, w, layers = self.graph(variant)
    if kind == 'agent':
      r = np.random.RandomState(seed)
      for t in range(4):
        obs = r.normal(size=1099).astype(np.float32)
        a = agent.step(0.0, obs) if t else agent.begin_episode(obs)
        best = int(np.argmax(obs @ w))
        ctx.check(a == best, 'other-weights', f'the policy chose {a} where '
                  f'its weights prefer {best}')
      return
    for (i, part), v in layers.items():
      name = 'kernel' if part == 'weights' else 'bias'
      got = np.asarray(params['params'][f'Dense_{i}'][name])
      ctx.check(np.array_equal(got, v), 'other-weights',
                f'{name} of layer {i} is not that of the file')


PROP = T10()
