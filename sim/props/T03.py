"""T03: checkpoint clean-up keeps what resuming needs."""
import os
import pickle

from sim import core
from sim import faultfs
from sim import rl
from sim import scratch

FOREIGN = ('checkpoint_best.pkl', 'checkpoint_00001.pkl.bak', 'notes.txt',
           'checkpoint_00002.txt', 'model_00003.pkl', 'checkpoint_.pkl',
           'checkpoint_00002_old.pkl', 'checkpoint_00000.tmp', 'checkpoint_1.pkl',
           'checkpoint_0000x.pkl', 'my_checkpoint_00001.pkl', 'checkpoint',
           'checkpoint_-0001.pkl', 'checkpoint_00001', '00001.pkl',
           'checkpoint_0001e.pkl', 'pickle_00001.pkl')


class T03(core.Prop):
  id = 'T03'
  title = 'Checkpoint clean-up keeps what resuming needs and only deletes stale ones'
  rule = ('seeded sequences of saves with clean-up, by agents and by the '
          'library functions alone, over durations, resumed and restarted '
          'numbering, iterations beyond five digits, foreign files and '
          'directories, killed or failing at drawn file operations; the '
          'directory compared after each with the set of checkpoints that '
          'must survive; non-trivial: at least one stale checkpoint removed')
  technique = ('seeded kills and I/O errors during clean-up against a set '
               'model of the directory')
  runs = {'quick': 960, 'thorough': 30000}
  real = ['dopamine_utils, DQNAgent.save_checkpoint, '
          'QuantileAgent.save_checkpoint, Dopamine replay checkpointing']
  stub = ['bundle function in half of the runs',
          'file system seam over a scratch directory']
  assumptions = ['files of iterations are named as save_checkpoint names them']

  def setup(self):
    rl.Lib.load()

  def generate(self, rng, tier):
    cfg = {'via': rng.choice(['lib', 'lib', 'dqn', 'quantile']),
           'duration': rng.choice([None, 0, 1, 2, 3, 5, 9, 50]),
           'seed': rng.randrange(2**31)}
    cfg['agent'] = cfg['via'] if cfg['via'] != 'lib' else 'dqn'
    n = rng.choice([0, 0, 0, 4, 93, 9995, 99990, 99996, 999995])
    ops = []
    for _ in range(rng.randint(5, 18 if tier == 'quick' else 50)):
      r = rng.random()
      if r < 0.15:
        ops.append(['foreign', rng.choice(FOREIGN), rng.random() < 0.15])
      elif r < 0.20:
        n = max(0, n - rng.randint(1, 6))        # resumed further back
      elif r < 0.25:
        n += rng.randint(1, 12)
      elif r < 0.30 and cfg['via'] == 'lib':
        cfg_d = rng.choice([0, 1, 2, 4, 7])
        ops.append(['duration', cfg_d])
      fault = None
      r = rng.random()
      if r < 0.25:
        # The clean-up comes at the end.
        fault = ['kill', rng.choice(['remove', 'listdir', 'close', 'any']),
                 rng.randint(1, 4), rng.choice([0.0, 0.5, 1.0])]
      elif r < 0.35:
        fault = ['io', rng.choice(['remove', 'listdir', 'write', 'close']),
                 rng.randint(1, 4), rng.choice(['eio', 'enospc'])]
      ops.append(['save', n, fault])
      n += 1 if fault is None or rng.random() < 0.5 else 0
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('removed', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.dir = os.path.join(self.base, 'checkpoints')
    self.foreign = {}
    self.duration = cfg['duration']
    self.agent = None
    rl.bind(cfg)
    try:
      with rl.process(cfg['seed']):
        if cfg['via'] != 'lib':
          self.agent = rl.make_agent(cfg, cfg['seed'] % 9973)
        for op in plan['ops']:
          getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
    finally:
      scratch.drop(self.base)

  def op_duration(self, cfg, ctx, d):
    self.duration = d

  def op_foreign(self, cfg, ctx, name, is_dir):
    os.makedirs(self.dir, exist_ok=True)
    path = os.path.join(self.dir, name)
    if os.path.exists(path):
      return
    if is_dir:
      os.makedirs(path)
      self.foreign[name] = None
    else:
      data = pickle.dumps({'name': name})
      with open(path, 'wb') as f:
        f.write(data)
      self.foreign[name] = data
    ctx.fault('foreign_file')

  def save(self, cfg, n):
    u = rl.Lib.dopamine_utils
    if self.agent is not None:
      self.agent.save_checkpoint(self.dir, n)
      return
    u.save_checkpoint(self.dir, n, lambda d, k: {'iteration': k})
    if self.duration is not None:
      u.clean_up_old_checkpoints(self.dir, n, checkpoint_duration=self.duration)

  def op_save(self, cfg, ctx, n, fault):
    before = set(rl.iterations(self.dir))
    content = {k: self.read(k) for k in before}
    fs = KindFS(self.base, ctx)
    if fault:
      fs.what, fs.kind, fs.nth = fault[0], fault[1], fault[2]
      if fault[0] == 'kill':
        fs.keep = fault[3]
      else:
        fs.err = fault[3]
    outcome = 'done'
    with fs.installed():
      try:
        self.save(cfg, n)
      except core.SimCrash:
        outcome = 'killed'
      except Exception as e:  # noqa
        if not rl.is_io_error(e) or fs.error_raised is None:
          raise
        outcome = 'failed'
    after = set(rl.iterations(self.dir))
    d = self.duration
    stale = set() if d is None else {k for k in before if k < n - d}
    # Replacing the checkpoint being saved is not clean-up: a save that was
    # interrupted leaves it incomplete or not there.
    gone = before - after - (set() if outcome == 'done' else {n})
    ctx.log('save', n, d, outcome, sorted(after)[-12:])
    ctx.state(outcome, len(stale), len(gone), fault and fault[1], d)
    if gone:
      ctx.probe('removed', len(gone))
    ctx.check(gone <= stale, 'needed-checkpoint-removed',
              lambda: f'saving {n} with duration {d} removed the checkpoints '
              f'{sorted(gone - stale)} of {sorted(before)}')
    ctx.check(after <= before | {n}, 'unexpected-checkpoint',
              lambda: f'saving {n} created {sorted(after - before - {n})}')
    for k in after - {n}:
      ctx.check(self.read(k) == content[k], 'checkpoint-altered',
                f'saving {n} altered checkpoint {k}')
    # The newest checkpoint there was survives unless this one is complete.
    if outcome == 'done':
      ctx.check(n in after and self.whole(n), 'checkpoint-not-saved',
                f'saving {n} succeeded, but it is not there')
      left = after & stale
      ctx.check(not left, 'stale-checkpoint-left',
                lambda: f'saving {n} with duration {d} left {sorted(left)}')
      if d is not None:
        low = [k for k in after if k <= n]
        ctx.check(len(low) <= d + 1, 'unbounded-checkpoints',
                  f'{len(low)} checkpoints up to {n} with duration {d}')
    elif gone:
      ctx.check(n in after and self.whole(n), 'removed-before-saved',
                lambda: f'checkpoints {sorted(gone)} were removed although '
                f'checkpoint {n} is not complete yet')
    for name, data in self.foreign.items():
      path = os.path.join(self.dir, name)
      if data is None:
        ok = os.path.isdir(path)
      else:
        ok = os.path.isfile(path) and open(path, 'rb').read() == data
      ctx.check(ok, 'foreign-file-touched',
                f'saving {n} removed or changed {name}')
    if self.agent is not None and outcome == 'done':
      # The replay memory of the newest checkpoint is kept with it.
      ctx.check(rl.judge(self.dir, n, rl.replay_names(self.agent))[1] == 'whole',
                'replay-removed', f'the replay memory of checkpoint {n} is gone')

  def read(self, n):
    with open(rl.checkpoint_file(self.dir, n), 'rb') as f:
      return f.read()

  def whole(self, n):
    try:
      pickle.loads(self.read(n))
      return True
    except Exception:  # noqa
      return False


class KindFS(faultfs.FaultFS):
  """Fails or dies at the n-th operation of one kind on the checkpoint files."""

  what = kind = err = None
  nth = 0

  def step(self, kind, path, gfile=True):
    if not self.frozen and not self.dead and self.what:
      if self.kind in (kind, 'any'):
        self.nth -= 1
        if self.nth < 0:
          what, self.what = self.what, None
          if what == 'kill':
            self.crash_at = 0
          else:
            self.errors[self.n + 1] = self.err
    super().step(kind, path, gfile)


PROP = T03()
