"""T02: a checkpoint restores exactly the learner that was saved."""
import os
import pickle
import random

from sim import core
from sim import faultfs
from sim import rl
from sim import scratch

GARBAGE = ('empty', 'text', 'list', 'number', 'dict', 'missing-key', 'binary')


class T02(core.Prop):
  id = 'T02'
  title = 'A checkpoint restores exactly the learner that was saved'
  rule = ('seeded histories of several learning agents that train, evaluate, '
          'save, load by number and as the latest, with saves killed midway, '
          'files removed, truncated or replaced, and read errors while '
          'loading; the loaded learner compared with a copy taken at the '
          'save and then continued side by side with the original; '
          'non-trivial: at least two loads that restored a learner')
  technique = ('seeded kills during saves, damaged files and read errors; '
               'comparison with copies and with the continued original')
  runs = {'quick': 480, 'thorough': 16000}
  real = ['DQNAgent, QuantileAgent, dopamine_utils, Dopamine replay memory '
          'and checkpointing']
  stub = ['scripted environment', 'file system seam over a scratch directory']
  assumptions = ['the random number generators are set alike before two '
                 'learners are continued side by side: checkpoints do not '
                 'hold their state',
                 'replay memory files that were deleted by their own clean-up '
                 'leave the replay memory of the loading agent as it was']

  def setup(self):
    rl.Lib.load()

  def generate(self, rng, tier):
    cfg = {'agent': rng.choice(['dqn', 'quantile']),
           'duration': rng.choice([None, None, 3, 8]),
           'partial': rng.random() < 0.5,
           'agents': rng.choice([2, 2, 3]),
           'capacity': rng.choice([20, 60, 300]),
           'update_period': rng.choice([1, 2, 4]),
           'target_period': rng.choice([3, 10]),
           'seeds': [rng.randrange(2**31) for _ in range(3)],
           'lengths': [rng.choice([2, 4, 9, 1000]) for _ in range(5)],
           'env_seed': rng.randrange(2**31)}
    ops, n, saved = [], rng.choice([0, 0, 3, 99997]), []
    for i in range(cfg['agents']):
      if rng.random() < 0.8:
        ops.append(['train', i, rng.randint(1, 4), rng.randint(3, 14),
                    rng.randrange(2**31)])
    for _ in range(rng.randint(5, 12 if tier == 'quick' else 30)):
      i = rng.randrange(cfg['agents'])
      r = rng.random()
      if r < 0.22:
        ops.append(['train', i, rng.randint(1, 3), rng.randint(3, 14),
                    rng.randrange(2**31)])
      elif r < 0.27:
        ops.append(['eval', i, rng.randint(1, 9), rng.randrange(2**31)])
      elif r < 0.32:
        ops.append(['midway', i, rng.randint(1, 9), rng.randrange(2**31)])
      elif r < 0.55 or not saved:
        fault = None
        if rng.random() < 0.3:
          fault = ['kill', rng.randint(1, rng.choice([20, 110])),
                   rng.choice([0.0, 0.4, 0.9, 1.0])]
        elif rng.random() < 0.15:
          fault = ['io', rng.randint(0, 100), rng.choice([0.0, 0.5, 1.0])]
        ops.append(['save', i, n, fault, rng.randrange(2**31)])
        saved.append(n)
        n += rng.choice([1, 1, 1, 2])
      elif r < 0.70:
        k = rng.choice(saved)
        ops.append(['damage', k, rng.choice(['remove', 'truncate', 'garbage']),
                    rng.choice(['pkl', 'gz', 'gz', 'all-gz']),
                    rng.randrange(64), rng.choice([0.0, 0.3, 0.9]),
                    rng.choice(GARBAGE)])
      else:
        fault = None
        if rng.random() < 0.2:
          fault = [rng.randint(0, rng.choice([6, 150])),
                   rng.choice(['eio', 'eagain', 'eacces'])]
        which = rng.choice(saved + saved[-2:] + [n + 3]) if rng.random() < 0.5 else None
        ops.append(['load', i, which, fault])
    for i in range(cfg['agents']):
      ops.append(['load', i, rng.choice([None, rng.choice(saved or [0])]), None])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('restored', 0) >= 2

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.dir = os.path.join(self.base, 'checkpoints')
    self.saves = {}
    rl.bind(cfg)
    try:
      with rl.process(cfg['seeds'][0]):
        self.agents = [rl.make_agent(cfg, cfg['seeds'][i] % 99991)
                       for i in range(cfg['agents'])]
        self.names = rl.replay_names(self.agents[0])
        for k, op in enumerate(plan['ops']):
          getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
          ctx.log(k, op[0], [rl.learner(a)['params'][0] for a in self.agents])
    finally:
      scratch.drop(self.base)

  def fly(self, cfg, agent, episodes, length, seed):
    """Flies episodes as the training loop does; returns the actions taken."""
    L = rl.Lib
    env = rl.ScriptEnv(cfg['env_seed'] ^ seed, core.Ctx(), cfg['lengths'],
                       start_episode=seed % 50)
    # The replay memories sample with both global generators.
    L.np.random.seed(seed % 2**32)
    random.seed(seed)
    agent._rng = L.jax.random.PRNGKey(seed % 2**31)
    actions = []
    for _ in range(episodes):
      a = agent.begin_episode(env.reset())
      for k in range(length):
        actions.append(int(a))
        o, r, terminal, _ = env.step(a)
        if terminal or k == length - 1:
          break
        a = agent.step(r, o)
      agent.end_episode(r, terminal)
    return actions

  def op_train(self, cfg, ctx, i, episodes, length, seed):
    self.agents[i].set_mode('train')
    self.fly(cfg, self.agents[i], episodes, length, seed)

  def op_eval(self, cfg, ctx, i, steps, seed):
    a = self.agents[i]
    a.set_mode('eval')
    env = rl.ScriptEnv(seed, core.Ctx(), [1000])
    act = a.begin_episode(env.reset())
    for _ in range(steps):
      o, r, _, _ = env.step(act)
      act = a.step(r, o)
    a.set_mode('train')

  def op_midway(self, cfg, ctx, i, steps, seed):
    """An episode that is broken off: the agent is left in the middle of it."""
    a = self.agents[i]
    env = rl.ScriptEnv(seed, core.Ctx(), [1000])
    act = a.begin_episode(env.reset())
    for _ in range(steps):
      o, r, _, _ = env.step(act)
      act = a.step(r, o)
    ctx.fault('episode_broken_off')

  def op_save(self, cfg, ctx, i, n, fault, seed):
    a = self.agents[i]
    fs = faultfs.FaultFS(self.base, ctx)
    if fault and fault[0] == 'kill':
      fs.crash_at, fs.crash_in, fs.keep = fault[1], 'write', fault[2]
    elif fault:
      fs.write_error, fs.keep = (fault[1], 'enospc'), fault[2]
    copy = {'learner': rl.learner(a), 'replay': rl.replay(a)}
    outcome = 'saved'
    with fs.installed():
      try:
        a.save_checkpoint(self.dir, n)
      except core.SimCrash:
        outcome = 'killed'
      except Exception as e:  # noqa
        if not rl.is_io_error(e) or fs.error_raised is None:
          raise
        outcome = 'failed'
    # Saving does not disturb the learner.
    ctx.check(rl.diff_learner(copy['learner'], rl.learner(a)) is None and
              rl.diff_replay(copy['replay'], rl.replay(a)) is None,
              'saving-changes-learner', f'saving checkpoint {n} changed the agent')
    if outcome == 'saved':
      ok, rep = rl.judge(self.dir, n, self.names)
      ctx.check(ok and rep == 'whole', 'checkpoint-not-saved',
                f'checkpoint {n} was saved, but is not whole: {ok} {rep}')
    # The original goes on; this is what a restored learner has to match.
    copy['seed'] = seed
    if outcome == 'killed':
      copy['then'] = None
      # The process is gone: a new one takes its place.
      self.agents[i] = rl.make_agent(cfg, seed % 99991)
    else:
      copy['then'] = self.go_on(cfg, a, seed)
    self.saves.setdefault(n, []).append(copy)
    ctx.log('save', n, outcome)

  def go_on(self, cfg, agent, seed):
    agent.set_mode('train')
    actions = self.fly(cfg, agent, 2, 11, seed)
    return {'actions': actions, 'learner': rl.learner(agent),
            'replay': rl.replay(agent)}

  def op_damage(self, cfg, ctx, n, how, what, which, share, garbage):
    if not os.path.isdir(self.dir):
      return
    if what == 'pkl':
      files = [rl.checkpoint_file(self.dir, n)]
    else:
      files = [os.path.join(self.dir, f) for f in rl.replay_files(self.dir, n)]
      if files and what == 'gz':
        files = [files[which % len(files)]]
    for path in files:
      if not os.path.exists(path):
        continue
      if how == 'remove':
        os.remove(path)
      elif how == 'truncate':
        size = os.path.getsize(path)
        with open(path, 'rb+') as f:
          f.truncate(int(size * share))
      else:
        with open(path, 'rb') as f:
          old = f.read()
        with open(path, 'wb') as f:
          f.write(self.garbage(garbage, old, path))
      ctx.fault(f'{how}_{what}')

  def garbage(self, kind, old, path):
    if kind == 'missing-key' and path.endswith('.pkl'):
      try:
        b = dict(pickle.loads(old))
        b.pop('target_params', None)
        return pickle.dumps(b)
      except Exception:  # noqa
        kind = 'text'
    return {'empty': b'', 'text': b'this is not a checkpoint\n',
            'list': pickle.dumps([1, 2, 3]), 'number': pickle.dumps(7),
            'dict': pickle.dumps({'something': 'else'}),
            'missing-key': pickle.dumps({}),
            'binary': bytes(range(256))}[kind]

  def op_load(self, cfg, ctx, i, n, fault):
    a = self.agents[i]
    fs = faultfs.FaultFS(self.base, ctx)
    if fault:
      fs.read_error = (fault[0], fault[1])
    names = rl.iterations(self.dir)
    judged = {k: rl.judge(self.dir, k, self.names) for k in names}
    usable = {k: rl.usable(self.dir, k, self.names, cfg['partial'])
              for k in names}
    before = {'learner': rl.learner(a), 'replay': rl.replay(a)}
    raised, ret = None, None
    with fs.installed():
      try:
        if n is None:
          ret = a.reload_latest_checkpoint(self.dir)
        else:
          ret = a.load_checkpoint(self.dir, n)
      except Exception as e:  # noqa
        raised = e
        if n is None and not rl.is_io_error(e):
          raise
    after = {'learner': rl.learner(a), 'replay': rl.replay(a)}
    unchanged = (rl.diff_learner(before['learner'], after['learner']) is None
                 and rl.diff_replay(before['replay'], after['replay']) is None)
    io = fs.error_raised is not None
    ctx.state(n is None, type(raised).__name__, io, unchanged,
              sorted(judged.values())[-2:])
    ctx.log('load', n, type(raised).__name__, unchanged)
    if n is None:
      if raised is not None:
        ctx.check(io, 'reload-failed', f'no read failed, but {raised!r}')
        ctx.check(unchanged, 'failed-load-changes-agent',
                  'looking for the latest checkpoint failed and changed the '
                  'agent')
        return
      want = [k for k in names if usable[k] is not False]
      sure = max((k for k in names if usable[k]), default=-1)
      if int(ret) < 0:
        ctx.check(sure < 0, 'restorable-checkpoint-ignored',
                  f'nothing restored, but checkpoint {sure} is intact')
        ctx.check(unchanged, 'failed-load-changes-agent',
                  'nothing was restored, but the agent changed')
        return
      ctx.check(int(ret) in want and int(ret) >= sure, 'wrong-latest',
                f'{ret} reported as restored; intact: {want}')
      self.restored(cfg, ctx, a, int(ret), before, after, judged[int(ret)])
      return
    u = usable.get(n, False)
    if u is False:
      ctx.check(unchanged, 'failed-load-changes-agent',
                lambda: f'checkpoint {n} is {judged.get(n, "missing")}, but '
                f'loading it changed the agent: '
                f'{rl.diff_learner(before["learner"], after["learner"])} '
                f'{rl.diff_replay(before["replay"], after["replay"])}')
      ctx.probe('load_refused')
      return
    if raised is not None:
      ctx.check(io or u is None, 'load-failed',
                f'checkpoint {n} is intact, but loading it raised {raised!r}')
      ctx.check(unchanged, 'failed-load-changes-agent',
                f'loading checkpoint {n} raised {raised!r} and changed the agent')
      return
    if u is None and unchanged:
      return
    self.restored(cfg, ctx, a, n, before, after, judged[n])

  def restored(self, cfg, ctx, a, n, before, after, judged):
    ctx.probe('restored')
    known = self.saves.get(n, [])
    ok = [k for k in known
          if rl.diff_learner(k['learner'], after['learner']) is None]
    ctx.check(ok, 'wrong-learner', lambda: f'checkpoint {n} restored a learner '
              f'that was not saved as such; it differs in '
              f'{rl.diff_learner(known[-1]["learner"], after["learner"]) if known else None}')
    if judged[1] == 'missing':
      ctx.check(rl.diff_replay(before['replay'], after['replay']) is None,
                'wrong-replay', f'checkpoint {n} has no replay memory, but '
                'loading it changed the one of the agent')
      return
    if judged[1] == 'old':
      return
    ok = [k for k in ok if rl.diff_replay(k['replay'], after['replay']) is None]
    ctx.check(ok, 'wrong-replay', lambda: f'checkpoint {n} restored another '
              f'replay memory: '
              f'{rl.diff_replay(known[-1]["replay"], after["replay"])}')
    then = [k for k in ok if k['then'] is not None]
    if not then:
      return
    k = then[-1]
    got = self.go_on(cfg, a, k['seed'])
    ctx.probe('continued')
    ctx.check(got['actions'] == k['then']['actions'], 'continues-differently',
              lambda: f'after loading checkpoint {n} the agent acts '
              f'{got["actions"]}, the original {k["then"]["actions"]}')
    d = rl.diff_learner(got['learner'], k['then']['learner'])
    e = rl.diff_replay(got['replay'], k['then']['replay'])
    ctx.check(d is None and e is None, 'continues-differently',
              f'after loading checkpoint {n} and continuing, the learner '
              f'differs from the continued original in {d or e}')


PROP = T02()
