"""T11: training batches of wind data never touch the evaluation set."""
import os
import pickle

from sim import core
from sim import faultfs
from sim import rl
from sim import scratch

SHARDS = 200


class T11(core.Prop):
  id = 'T11'
  title = 'Training batches of wind data never touch the evaluation set'
  rule = ('seeded interleavings of requests to several reservoirs - in memory '
          'or loaded from 200 shard files of drawn, also empty, sizes - with '
          'evaluation sets of no, some and all rows, batches up to and beyond '
          'what there is; rows are identified by their contents, a twin that '
          'is never asked for evaluation data has to serve the same sequence; '
          'loading meets missing, torn and damaged shards and read errors at '
          'drawn operations; non-trivial: batches were served, or loading met '
          'a fault')
  technique = ('seeded interleavings of requests and read faults against a '
               'reference of row identities and a twin')
  runs = {'quick': 1100, 'thorough': 60000}
  real = ['DatasetWindFieldReservoir', 'jax.random']
  stub = ['small rows in place of wind fields', 'file system seam']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.generative import (
        dataset_wind_field_reservoir)
    self.cls = dataset_wind_field_reservoir.DatasetWindFieldReservoir

  def generate(self, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    cfg = {'reservoirs': [self.reservoir(rng) for _ in range(n)]}
    ops = []
    for _ in range(rng.randint(3, 25)):
      i = rng.randrange(n)
      m = max(1, cfg['reservoirs'][i]['train'])
      r = rng.random()
      if r < 0.30:
        ops.append(['eval', i])
      elif r < 0.34:
        ops.append(['reload', i])
      else:
        k = rng.choice([1, 2, 5, m, m, m + 1 if rng.random() < 0.3 else m])
        ops.append(['batch', i, k])
    if rng.random() < 0.04:
      ops += [['batch', 0, 1]] * 200
    return {'cfg': cfg, 'ops': ops}

  def reservoir(self, rng):
    train = rng.choice([0, 1, 2, 5, 9, 17])
    held = rng.choice([0, 1, 2, 10, None])
    out = {'train': train, 'eval': held, 'rng': rng.choice([None, 0, 1, 7, 2**31]),
           'shape': rng.choice([[3], [2, 2]]), 'files': None,
           'short': rng.randint(1, 5) if rng.random() < 0.15 else 0}
    if rng.random() < 0.3:
      fault = None
      r = rng.random()
      if r < 0.15:
        fault = ['missing', rng.randrange(SHARDS)]
      elif r < 0.3:
        fault = ['torn', rng.randrange(SHARDS), rng.choice([0.0, 0.5, 0.9])]
      elif r < 0.4:
        fault = ['garbage', rng.randrange(SHARDS)]
      elif r < 0.65:
        fault = ['io', rng.randrange(800), rng.choice(['eio', 'eagain',
                                                       'eacces'])]
      out['files'] = {'split': rng.randrange(2**31), 'fault': fault,
                      'extra': rng.random() < 0.3}
    return out

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('batch', 0) + ctx.probes.get('load_fault', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    self.made = []
    for i, r in enumerate(plan['cfg']['reservoirs']):
      self.made.append(self.build(r, i, ctx))
    for op in plan['ops']:
      m = self.made[op[1]]
      if m is not None:
        getattr(self, 'op_' + op[0])(ctx, m, *op[1:])
    for m in self.made:
      if m:
        self.coverage(ctx, m)

  def rows(self, r, i):
    """The data set: each row tells its number."""
    np = rl.Lib.np
    held = 10 if r['eval'] is None else r['eval']
    n = max(0, r['train'] + held - r['short'])
    a = np.zeros([n] + r['shape'], dtype=np.float32)
    flat = a.reshape(n, int(np.prod(r['shape'])))
    for j in range(n):
      flat[j] = [j, 1000 * i] + [core.derive('v', i, j) % 997] * (
          flat.shape[1] - 2)
    return a

  def build(self, r, i, ctx):
    np = rl.Lib.np
    rows = self.rows(r, i)
    kw = {}
    if r['eval'] is not None:
      kw['eval_batch_size'] = r['eval']
    if r['rng'] is not None:
      kw['rng_seed'] = r['rng']
    if r['files'] is None:
      data = rl.Lib.jax.numpy.asarray(rows) if i % 2 else rows
      real = self.cls(data, **kw)
    else:
      real = self.from_files(r['files'], rows, kw, ctx)
      if real is None:
        return None
    held = 10 if r['eval'] is None else r['eval']
    return {'real': real, 'twin': self.cls(np.array(rows), **kw), 'rows': rows,
            'held': held, 'i': i, 'kw': kw, 'served': [], 'requests': [],
            'tainted': False}

  def from_files(self, files, rows, kw, ctx):
    """Loads shards; None if loading failed, as it has to after a fault."""
    np = rl.Lib.np
    root = scratch.fresh()
    try:
      import random
      r = random.Random(files['split'])
      # The shard of each row; the ends are the interesting places.
      home = sorted(r.choice([0, SHARDS - 1, r.randrange(SHARDS),
                              r.randrange(SHARDS), 100]) for _ in rows)
      parts = np.split(rows, [sum(h < k for h in home)
                              for k in range(1, SHARDS)])
      for i, part in enumerate(parts):
        with open(os.path.join(root, f'batch{i:04d}.pickle'), 'wb') as f:
          pickle.dump(part, f)
      if files['extra']:
        for name in ('batch0200.pickle', 'batch1.pickle', 'notes.txt'):
          with open(os.path.join(root, name), 'wb') as f:
            pickle.dump(rows[:1], f)
      fault = files['fault']
      fs = faultfs.FaultFS(root, ctx)
      if fault and fault[0] == 'io':
        fs.read_error = (fault[1], fault[2])
      elif fault:
        path = os.path.join(root, f'batch{fault[1]:04d}.pickle')
        with open(path, 'rb') as f:
          whole = f.read()
        os.remove(path)
        if fault[0] == 'torn':
          with open(path, 'wb') as f:
            f.write(whole[:int(len(whole) * fault[2])])
        elif fault[0] == 'garbage':
          with open(path, 'wb') as f:
            f.write(b'\x00garbage' * 9)
        ctx.fault('shard_' + fault[0])
      error = real = None
      with fs.installed():
        try:
          real = self.cls(root, **kw)
        except Exception as e:  # noqa
          error = e
      hit = bool(fs.error_raised) or bool(fault and fault[0] != 'io')
      ctx.log('load', len(rows), fault, type(error).__name__)
      ctx.state('load', fault and fault[0], type(error).__name__)
      if hit:
        ctx.probe('load_fault')
      ctx.check(hit or error is None, 'not-loaded',
                lambda: f'loading {SHARDS} intact shards: {error!r}')
      if error is not None:
        return None
      got = np.asarray(real.dataset)
      ctx.check(np.array_equal(got, rows), 'wrong-data', lambda:
                f'fault {fault}: loading succeeded with {len(got)} rows '
                f'{[int(x.flat[0]) for x in got][:20]} of {len(rows)}')
      ctx.probe('loaded')
      return real
    finally:
      scratch.drop(root)

  def ids(self, m, batch, ctx, what):
    """Numbers of the rows of a batch."""
    np = rl.Lib.np
    batch = np.asarray(batch)
    ctx.check(batch.shape[1:] == m['rows'].shape[1:], 'wrong-shape',
              lambda: f'{what}: shape {batch.shape}')
    out = []
    for row in batch:
      j = int(row.flat[0])
      ctx.check(0 <= j < len(m['rows']) and np.array_equal(row, m['rows'][j]),
                'no-such-row', lambda: f'{what}: {row} is no row of the data')
      out.append(j)
    return out

  def op_batch(self, ctx, m, i, k):
    n = len(m['rows']) - m['held']
    what = f'reservoir {i}, {k} of {n} rows'
    if m['tainted']:
      return
    got = error = None
    try:
      got = m['real'].get_batch(k)
    except Exception as e:  # noqa
      error = e
    if error is not None:
      ctx.check(k > n or n <= 0, 'no-batch', lambda: f'{what}: {error!r}')
      m['tainted'] = True    # whether a failed request counts is not specified
      ctx.probe('refused')
      return
    ids = self.ids(m, got, ctx, what)
    ctx.check(len(ids) == k, 'wrong-size', f'{what}: {len(ids)} rows')
    ctx.check(len(set(ids)) == k, 'repeated-row', f'{what}: rows {ids}')
    ctx.check(all(j < n for j in ids), 'evaluation-row', lambda:
              f'{what}: training rows {ids} include evaluation rows')
    twin = self.ids(m, m['twin'].get_batch(k), ctx, what)
    ctx.check(ids == twin, 'not-reproducible', lambda: f'{what}, request '
              f'{len(m["requests"])}: rows {ids}, without evaluation requests '
              f'{twin}')
    m['requests'].append(k)
    m['served'].append(ids)
    ctx.probe('batch')
    ctx.log('batch', i, ids)
    ctx.state('batch', k == n, n, len(m['served']) > 3)

  def op_eval(self, ctx, m, i):
    rows, held = m['rows'], m['held']
    what = f'reservoir {i}, evaluation'
    ids = self.ids(m, m['real'].get_eval_batch(), ctx, what)
    want = list(range(max(0, len(rows) - held), len(rows)))
    ctx.check(ids == want, 'wrong-evaluation-set', lambda:
              f'{what}: rows {ids}, held out are {want}')
    ctx.probe('eval')
    ctx.log('eval', i, ids)

  def op_reload(self, ctx, m, i):
    """The same requests to a new reservoir: the seed determines the answers."""
    if m['tainted']:
      return
    new = self.cls(rl.Lib.np.array(m['rows']), **m['kw'])
    for k, served in zip(m['requests'], m['served']):
      got = self.ids(m, new.get_batch(k), ctx, 'reload')
      ctx.check(got == served, 'not-reproducible', lambda: f'reservoir {i}: a '
                f'second one serves {got}, the first {served}')
    m['real'] = new
    ctx.probe('reload')

  def coverage(self, ctx, m):
    """Every training row is served sooner or later, and batches differ."""
    n = len(m['rows']) - m['held']
    if n < 2 or not m['served']:
      return
    miss = same = 1.0
    for k in m['requests']:
      miss *= 1 - k / n
    seen = {j for ids in m['served'] for j in ids}
    # At most n rows may be missed, each with this probability.
    ctx.check(n * miss > 1e-9 or len(seen) == n, 'never-served', lambda:
              f'reservoir {m["i"]}: {len(seen)} of {n} rows were served in '
              f'{len(m["served"])} batches')
    for a in m['served'][1:]:
      p = 1.0
      for x in range(len(a)):
        p /= n - x
      same *= p
    ctx.check(same > 1e-9 or any(a != m['served'][0][:len(a)]
                                 for a in m['served'][1:]), 'always-the-same',
              lambda: f'reservoir {m["i"]}: {len(m["served"])} equal batches')


PROP = T11()
