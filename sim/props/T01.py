"""T01: interrupted training resumes after the last complete checkpoint."""
import os
import pickle

from sim import core
from sim import faultfs
from sim import rl
from sim import scratch

FOREIGN = ('checkpoint_best.pkl', 'checkpoint_00003.pkl.bak', 'notes.txt',
           'checkpoint_00007.tmp', 'model_00004.pkl', 'checkpoint_.pkl',
           'checkpoint_00002_old.pkl', 'sentinel_checkpoint_complete.3')


class T01(core.Prop):
  id = 'T01'
  title = 'Interrupted training resumes after the last complete checkpoint'
  rule = ('seeded histories of training processes in one directory, killed at '
          'drawn environment calls, agent calls and file operations (with '
          'torn and lost writes), hit by I/O errors and by files damaged '
          'between two processes, with foreign files present; every restart '
          'compared with the newest intact checkpoint found by independent '
          'inspection, the last process without faults has to finish; '
          'non-trivial: at least two restarts')
  technique = ('seeded kills, torn writes and I/O errors over many process '
               'lives of the real training loop')
  runs = {'quick': 640, 'thorough': 20000}
  real = ['train_lib.run_training_loop, DQNAgent, QuantileAgent, '
          'dopamine_utils, Dopamine replay memory and checkpointing']
  stub = ['scripted environment', 'file system seam over a scratch directory']
  assumptions = ['a file is not altered other than by truncation or by '
                 'garbage in its place']

  def setup(self):
    rl.Lib.load()

  def generate(self, rng, tier):
    cfg = {'agent': rng.choice(['dqn', 'quantile']),
           'duration': rng.choice([None, 0, 1, 1, 2, 3, 5]),
           'partial': rng.random() < 0.7,
           'epi': rng.choice([1, 1, 2, 3]),
           'max_len': rng.randint(3, 9),
           'lengths': [rng.choice([1, 3, 6, 1000, 1000]) for _ in range(7)],
           'env_seed': rng.randrange(2**31), 'capacity': rng.choice([25, 200]),
           'collectors': rng.random() < 0.2}
    ops = []
    base = 0
    if rng.random() < 0.25:
      base = rng.choice([1, 9, 98, 9998, 99997, 99998, 99999, 100000, 999999])
      ops.append(['plant', base])
    target = base
    for _ in range(rng.randint(2, 5 if tier == 'quick' else 9)):
      if rng.random() < 0.25:
        ops.append(['foreign', rng.choice(FOREIGN),
                    rng.choice(['text', 'pickle', 'empty'])])
      target += rng.choice([0, 1, 1, 2, 3, 6])
      per = cfg['epi'] * (cfg['max_len'] + 1)
      r = rng.random()
      if r < 0.45:
        # Saving takes about 90 operations, loading 200.
        cls = rng.choice(['read', 'write', 'write', 'write'])
        fault = ['fs', rng.randint(1, 500 if cls == 'read' else
                                   rng.choice([100, 300])), cls, rng.choice([0.0, 0.3, 0.7, 0.99, 1.0])]
      elif r < 0.62:
        fault = ['env', rng.randint(1, per * 4)]
      elif r < 0.72:
        fault = ['agent', rng.randint(1, per * 4)]
      elif r < 0.82:
        fault = ['io_w', rng.randint(0, 260), rng.choice(['enospc', 'eio']),
                 rng.choice([0.0, 0.5, 1.0])]
      elif r < 0.90:
        fault = ['io_r', rng.randint(0, 120), rng.choice(['eio', 'eagain', 'eacces'])]
      else:
        fault = None
      ops.append(['run', target, fault, rng.randrange(2**31)])
      if rng.random() < 0.2:
        # Power loss: a recently written file is shorter than it should be.
        ops.append(['damage', rng.choice(['pkl', 'pkl', 'gz', 'gz']),
                    rng.randrange(16), rng.choice([0.0, 0.5, 0.97, 'garbage'])])
    ops.append(['run', target + rng.choice([0, 1, 2]), None,
                rng.randrange(2**31)])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('restart', 0) >= 2

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.dir = os.path.join(self.base, 'checkpoints')
    self.saves = {}       # iteration -> learners passed to save_checkpoint
    self.names = None
    self.complete = None  # the last iteration whose saving was completed
    rl.bind(cfg)
    try:
      for op in plan['ops']:
        getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
    finally:
      scratch.drop(self.base)

  def op_plant(self, cfg, ctx, n):
    with rl.process(n):
      a = rl.make_agent(cfg, n % 1000)
      os.makedirs(self.dir, exist_ok=True)
      self.names = rl.replay_names(a)
      self.remember(n, a)
      a.save_checkpoint(self.dir, n)
      self.complete = n

  def op_foreign(self, cfg, ctx, name, what):
    os.makedirs(self.dir, exist_ok=True)
    with open(os.path.join(self.dir, name), 'wb') as f:
      f.write({'text': b'not a checkpoint', 'empty': b'',
               'pickle': pickle.dumps({'a': 1})}[what])
    ctx.fault('foreign_file')

  def op_damage(self, cfg, ctx, kind, which, how):
    if not os.path.isdir(self.dir):
      return
    its = rl.iterations(self.dir)
    if not its:
      return
    n = its[-1] if which % 3 else its[which % len(its)]
    if kind == 'pkl':
      path = rl.checkpoint_file(self.dir, n)
    else:
      files = rl.replay_files(self.dir, n)
      if not files:
        return
      path = os.path.join(self.dir, files[which % len(files)])
    size = os.path.getsize(path)
    with open(path, 'rb+') as f:
      if how == 'garbage':
        f.write(b'\x00not what it should be\x00' * 3)
        f.truncate()
      else:
        f.truncate(int(size * how))
    ctx.fault(f'damaged_{kind}')
    self.complete = None

  def remember(self, n, agent):
    self.saves.setdefault(n, []).append((rl.learner(agent), rl.replay(agent)))

  def usable(self, cfg):
    out = [(n, rl.usable(self.dir, n, self.names, cfg['partial']))
           for n in rl.iterations(self.dir)]
    return [(n, u) for n, u in out if u is not False]

  def starts(self, usable):
    """Where training may start: more than one place only if a file is grey."""
    out = []
    for n, u in reversed(usable):
      out.append(n + 1)
      if u:
        return out
    return out + [0]

  def op_run(self, cfg, ctx, target, fault, seed):
    L = rl.Lib
    with rl.process(seed):
      agent = rl.make_agent(cfg, seed % 9973)
      if self.names is None:
        self.names = rl.replay_names(agent)
      usable = self.usable(cfg)
      starts = self.starts(usable)
      start = starts[0]
      # No interruption may cost a checkpoint that had been completed.
      last = self.complete
      ctx.check(last is None or start > last, 'checkpoint-lost', lambda:
                f'checkpoint {last} had been completed, but the newest usable '
                f'one is {start - 1}')
      # Not a million iterations if a planted checkpoint was lost.
      target = min(target, start + 12)
      before = dict(self.whole())
      env = rl.ScriptEnv(cfg['env_seed'], ctx, cfg['lengths'])
      fs = faultfs.FaultFS(self.base, ctx)
      kind = fault[0] if fault else None
      if kind == 'fs':
        fs.crash_at, fs.crash_in, fs.keep = fault[1:4]
      elif kind == 'env':
        env.kill_at = fault[1]
      elif kind == 'io_w':
        fs.write_error, fs.keep = (fault[1], fault[2]), fault[3]
      elif kind == 'io_r':
        fs.read_error = (fault[1], fault[2])
      events = []
      self.instrument(agent, fs, env, events, ctx,
                      fault[1] if kind == 'agent' else None)
      collectors = []
      if cfg['collectors']:
        collectors = L.train_lib.get_collector_data(['pickle', 'console'])
      outcome = 'done'
      with fs.installed():
        try:
          L.train_lib.run_training_loop(
              self.base, env, agent, target, cfg['max_len'], collectors,
              episodes_per_iteration=cfg['epi'])
        except core.SimCrash:
          outcome = 'killed'
        except Exception as e:  # noqa
          if not rl.is_io_error(e) or fs.error_raised is None:
            raise
          outcome = 'io error'
    ctx.log('run', target, start, outcome, events, fs.n)
    ctx.state(len(usable), outcome, kind, len(starts), start - (rl.iterations(self.dir) or [0])[-1])
    if usable:
      ctx.probe('restart')
    self.judge_run(cfg, ctx, starts, target, outcome, events, env, before)

  def whole(self):
    """Content of the checkpoint files, by iteration."""
    for n in rl.iterations(self.dir):
      with open(rl.checkpoint_file(self.dir, n), 'rb') as f:
        yield n, f.read()

  def instrument(self, agent, fs, env, events, ctx, kill_at):
    save, reload = agent.save_checkpoint, agent.reload_latest_checkpoint
    begin, step = agent.begin_episode, agent.step
    count = [0]

    def tick():
      count[0] += 1
      if kill_at is not None and count[0] >= kill_at:
        ctx.fault('crash_in_agent')
        fs.dead = True
        raise core.SimCrash('killed in the agent')

    def begin_episode(o):
      tick()
      events.append('episode')
      return begin(o)

    def step_(r, o):
      tick()
      return step(r, o)

    def save_checkpoint(d, n):
      self.remember(n, agent)
      events.append(['save', n])
      save(d, n)
      events.append(['saved', n])
      fs.frozen = True
      ok, rep = rl.judge(d, n, self.names)
      fs.frozen = False
      ctx.check(ok and rep == 'whole', 'checkpoint-not-saved',
                f'saving checkpoint {n} returned, but on disk its learner is '
                f'{"there" if ok else "missing or damaged"} and its replay '
                f'memory {rep}')
      self.complete = n

    def reload_latest(d):
      n = reload(d)
      events.append(['reloaded', int(n), rl.learner(agent), rl.replay(agent)])
      return n
    agent.save_checkpoint = save_checkpoint
    agent.reload_latest_checkpoint = reload_latest
    agent.begin_episode = begin_episode
    agent.step = step_

  def judge_run(self, cfg, ctx, starts, target, outcome, events, env, before):
    it = iter(events)
    first = next(it, None)
    if first is None:
      ctx.check(outcome != 'done', 'no-reload',
                'training finished without looking for a checkpoint')
      ctx.check(env.ncalls == 0, 'trained-without-resuming',
                'episodes were flown although restoring the checkpoint failed')
      # A start that failed leaves all checkpoints as they were.
      ctx.check(dict(self.whole()) == before, 'start-destroys-checkpoints',
                'a start that failed changed the checkpoints')
      return
    ctx.check(first[0] == 'reloaded', 'episode-before-reload',
              f'training began with {first[0]}')
    start = first[1] + 1
    ctx.check(start in starts, 'wrong-checkpoint',
              lambda: f'resumed from checkpoint {first[1]}; the newest intact '
              f'one is {starts[0] - 1}; files before: {sorted(before)}')
    if start > 0:
      self.restored(ctx, start - 1, first[2], first[3], before)
    # Then every remaining iteration and its checkpoint, in order.
    want = []
    for n in range(start, target):
      want += ['episode'] * cfg['epi'] + [['save', n], ['saved', n]]
    got = events[1:]
    if outcome == 'done':
      ctx.check(got == want, 'wrong-iterations',
                lambda: f'started at iteration {start} of {target} with '
                f'{cfg["epi"]} episodes each, but did {brief(got)} instead of '
                f'{brief(want)}')
      if target > start:
        ctx.check(rl.usable(self.dir, target - 1, self.names, cfg['partial']),
                  'final-checkpoint-missing',
                  f'training to {target} finished without checkpoint '
                  f'{target - 1}')
    else:
      ctx.check(got == want[:len(got)], 'wrong-iterations',
                lambda: f'started at iteration {start} of {target} with '
                f'{cfg["epi"]} episodes each, but did {brief(got)} before it '
                f'was interrupted')

  def restored(self, ctx, n, learner, replay, before):
    known = self.saves.get(n, [])
    ok = [k for k in known if rl.diff_learner(k[0], learner) is None]
    ctx.check(ok, 'wrong-learner',
              lambda: f'the learner restored from checkpoint {n} is none of '
              f'the {len(known)} that were saved as such: differs in '
              f'{rl.diff_learner(known[-1][0], learner) if known else None}')
    b = pickle.loads(before[n])
    ctx.check(rl.same_arrays(rl.leaves(b['online_params']), learner['params'])
              and int(b['training_steps']) == learner['steps'],
              'wrong-learner', f'the learner restored is not the one in '
              f'checkpoint {n}')
    if rl.judge(self.dir, n, self.names)[1] == 'whole':
      ctx.check(any(rl.diff_replay(k[1], replay) is None for k in ok),
                'wrong-replay', lambda: f'the replay memory restored from '
                f'checkpoint {n} is not the one saved: '
                f'{rl.diff_replay(ok[-1][1], replay)}')


def brief(events):
  out = []
  for e in events:
    if e == 'episode' and out and out[-1][0] == 'episode':
      out[-1][1] += 1
    else:
      out.append(['episode', 1] if e == 'episode' else list(e)[:2])
  return out[:40]


PROP = T01()
