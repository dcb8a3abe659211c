"""T04: metrics record every step and episode exactly once."""
import functools
import os
import pickle
import re

from sim import core
from sim import faultfs
from sim import loop
from sim import rl
from sim import scratch

FINE = re.compile(r'Step: (\d+), action: (\d+), reward: (\S+), '
                  r'terminal: (True|False)')
EPISODE = re.compile(r'Episode (\d+): reward: (\S+), episode length: (\d+), '
                     r'action distribution: \[([-+\d\s.,e]*)\]')


class T04(core.Prop):
  id = 'T04'
  title = 'Metrics record every step and episode exactly once'
  rule = ('seeded lives of training processes with all collectors in drawn '
          'order and configuration, killed at drawn environment calls, agent '
          'calls and file operations or hit by I/O errors, resumed from the '
          'last iteration saved; pickle files, console log and event files '
          'read back after every life and compared with what the environment '
          'produced; non-trivial: at least three episodes finished')
  technique = ('seeded kills, torn writes and I/O errors over process lives '
               'of the training loop with every metrics collector')
  runs = {'quick': 2400, 'thorough': 100000}
  real = ['train_lib.run_training_loop, CollectorDispatcher, pickle, console '
          'and TensorBoard collectors']
  stub = ['scripted environment and agent (agent checkpoints kept in memory)',
          'file system seam (the event files are written by TensorFlow itself '
          'and never fail)']

  def setup(self):
    rl.Lib.load()

  def generate(self, rng, tier):
    kinds = ['pickle', 'console', 'tensorboard']
    rng.shuffle(kinds)
    if rng.random() < 0.4:
      kinds = kinds[:rng.randint(1, 2)]
    cfg = {'kinds': kinds, 'epi': rng.choice([1, 1, 2, 3]),
           'max_len': rng.choice([1, 2, 3, 5, 8, 12]),
           'lengths': [rng.choice([1, 2, 4, 1000]) for _ in range(7)],
           'n_actions': rng.choice([2, 3, 3, 5]),
           'scale': rng.choice([1.0, 1.0, 100.0, -30.0, 4096.0]),
           'fine': rng.random() < 0.6, 'freq': rng.choice([1, 1, 2, 3, 7]),
           'to_file': rng.random() < 0.9, 'env_seed': rng.randrange(2**31)}
    if rng.random() < 0.02:
      # As long as real episodes.
      cfg['max_len'] = rng.choice([300, 600, 960])
      cfg['lengths'] = [rng.choice([520, 1000]) for _ in range(7)]
      cfg['n_actions'] = rng.choice([2, 3])
    ops, target = [], 0
    for _ in range(rng.randint(1, 4 if tier == 'quick' else 8)):
      target += rng.choice([0, 1, 2, 4])
      per = cfg['epi'] * (cfg['max_len'] + 1)
      r = rng.random()
      fault = None
      if r < 0.3:
        fault = ['fs', rng.randint(1, 6 + 6 * cfg['epi'] * 3),
                 rng.choice([0.0, 0.3, 0.8, 0.99, 1.0])]
      elif r < 0.5:
        fault = ['env', rng.randint(1, per * 4)]
      elif r < 0.7:
        fault = ['agent', rng.randint(1, per * 4)]
      elif r < 0.8:
        fault = ['io', rng.randint(0, 6 + 6 * cfg['epi'] * 2),
                 rng.choice(['enospc', 'eio']), rng.choice([0.0, 0.5, 1.0])]
      ops.append(['run', target, fault, rng.randrange(2**31)])
    ops.append(['run', target + rng.choice([0, 1, 2]), None,
                rng.randrange(2**31)])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('episode', 0) >= 3

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.durable = {}     # iterations saved by the agent
    self.pickles = {}     # episode -> steps, or None where anything may be
    self.tokens = []      # of the console log: (token, needed)
    self.seen = set()     # event files read already
    self.gsteps = 0
    try:
      for op in plan['ops']:
        self.op_run(cfg, ctx, *op[1:])
    finally:
      scratch.drop(self.base)

  def collectors(self, cfg, events):
    L = rl.Lib
    got = L.train_lib.get_collector_data(cfg['kinds'])
    opts = {'fine_grained_logging': cfg['fine'],
            'fine_grained_frequency': cfg['freq']}
    out = [loop.make_recorder(events, 0)]
    for kind, c in zip(cfg['kinds'], got):
      if kind == 'console':
        c = functools.partial(c, save_to_file=cfg['to_file'], **opts)
      elif kind == 'tensorboard':
        c = functools.partial(c, **opts)
      out.append(c)
    return out + [loop.make_recorder(events, 1)]

  def op_run(self, cfg, ctx, target, fault, seed):
    events = []
    start = max(self.durable) + 1 if self.durable else 0
    env = loop.LoopEnv(cfg['env_seed'] + seed, ctx, cfg['lengths'],
                       cfg['n_actions'], events)
    scale = cfg['scale']
    plain = env.reward
    env.reward = lambda e, t: plain(e, t) * scale
    agent = loop.make_stub(ctx, cfg['n_actions'], seed, events, self.durable)
    fs = faultfs.FaultFS(self.base, ctx)
    kind = fault[0] if fault else None
    if kind == 'fs':
      fs.crash_at, fs.crash_in, fs.keep = fault[1], 'write', fault[2]
    elif kind == 'env':
      env.kill_at = fault[1]
    elif kind == 'agent':
      agent.kill_at = fault[1]
    elif kind == 'io':
      fs.write_error, fs.keep = (fault[1], fault[2]), fault[3]
    outcome = 'done'
    with fs.installed():
      try:
        rl.Lib.train_lib.run_training_loop(
            self.base, env, agent, target, cfg['max_len'],
            self.collectors(cfg, events), episodes_per_iteration=cfg['epi'])
      except core.SimCrash:
        outcome = 'killed'
        if not fs.dead:
          try:
            fs.kill()
          except core.SimCrash:
            pass
      except Exception as e:  # noqa
        if not rl.is_io_error(e) or fs.error_raised is None:
          raise
        outcome = 'io error'
    episodes = self.episodes(cfg, events, start * cfg['epi'])
    done = sum(e['ended'] for e in episodes)
    ctx.probe('episode', done)
    if start:
      ctx.probe('resumed')
    ctx.log('run', target, start, outcome, done, len(episodes), fs.n)
    ctx.state(outcome, kind, tuple(cfg['kinds']), start > 0, min(done, 4),
              fs.log[-1][0] if fs.log and fs.dead else None)
    self.check_recorders(cfg, ctx, events, episodes, outcome, start)
    self.check_pickles(cfg, ctx, episodes)
    self.check_console(cfg, ctx, episodes, start)
    self.check_events(cfg, ctx, episodes, start, outcome)
    for e in events:
      if e[0] == 'writer' and e[1] is not None:
        e[1].close()

  def episodes(self, cfg, events, first):
    """What really happened, from the environment's side."""
    out = []
    for e in events:
      if e[0] == 'env_reset':
        out.append({'k': first + len(out), 'steps': [], 'ends': set()})
      elif e[0] == 'env_step':
        out[-1]['steps'].append((int(e[1]), float(e[3]), bool(e[4])))
      elif e[0] == 'c_end' and out:
        out[-1]['ends'].add(e[1])
    for e in out:
      e['ended'] = e['ends'] == {0, 1}
      e['over'] = bool(e['steps']) and (e['steps'][-1][2] or
                                        len(e['steps']) == cfg['max_len'])
    return out

  # -- oracles -------------------------------------------------------------

  def check_recorders(self, cfg, ctx, events, episodes, outcome, start):
    for tag in (0, 1):
      mine = [e for e in events if e[0].startswith('c_') and e[1] == tag]
      if not mine:
        ctx.check(outcome != 'done', 'collector-not-called',
                  'training finished without a collector being created')
        continue
      ctx.check(mine[0][0] == 'c_new' and mine[0][2:] ==
                (self.base, cfg['n_actions'], start * cfg['epi']),
                'wrong-start', lambda: f'collector created with '
                f'{mine[0][2:]}, expected episode {start * cfg["epi"]}')
      want = [('c_pre',)]
      for e in episodes:
        want.append(('c_begin',))
        for i, (a, r, t) in enumerate(e['steps']):
          want.append(('c_step', i, a, r, t))
        if e['over']:
          a, r, t = e['steps'][-1]
          want.append(('c_end', len(e['steps']), a, r, t))
      want.append(('c_done',))
      got = [(e[0],) + (tuple(e[2]) if len(e) > 2 else ()) for e in mine[1:]]
      if outcome != 'done':
        # The last records may be missing; an episode may just have begun.
        if got[-1:] != [('c_done',)] or not all(e['ended'] for e in episodes):
          want[-1] = ('c_begin',)
        want = want[:max(len(got), len(want) - 3)]
      same = len(got) == len(want) and all(
          a == b or (a[0] == b[0] == 'c_end' and a[1] == b[1] and
                     a[4] == b[4] and a[3] == 0.0)
          for a, b in zip(got, want))
      ctx.check(same, 'wrong-records', lambda: first_difference(got, want))

  def check_pickles(self, cfg, ctx, episodes):
    if 'pickle' not in cfg['kinds']:
      return
    for e in episodes:
      if e['ended']:
        self.pickles[e['k']] = e['steps']
      elif e['over']:
        self.pickles[e['k']] = None      # may have been interrupted
    d = os.path.join(self.base, 'metrics', 'pickle')
    files = set(os.listdir(d)) if os.path.isdir(d) else set()
    for k, steps in self.pickles.items():
      name = f'pickle_{k}.pkl'
      files.discard(name)
      if steps is None:
        continue
      path = os.path.join(d, name)
      try:
        with open(path, 'rb') as f:
          got = [(s.step, int(s.action), float(s.reward), bool(s.terminal))
                 for s in pickle.load(f)]
      except Exception as ex:  # noqa
        ctx.check(False, 'episode-not-durable',
                  f'episode {k} had ended, but {name} cannot be read: {ex!r}')
      want = [(i,) + s for i, s in enumerate(steps)]
      ctx.check(got[:len(want)] == want, 'wrong-pickle',
                lambda: f'{name}: ' + first_difference(got[:len(want)], want))
      if len(got) > len(want):
        ctx.check(got[len(want):] == [(len(want),) + want[-1][1:]],
                  'wrong-pickle', lambda: f'{name} ends with '
                  f'{got[len(want):]} after {len(want)} steps, the last of '
                  f'them {want[-1]}')
        ctx.finding('T04-last-step-twice', 'wrong-pickle',
                    f'{name} records the last of {len(want)} steps twice')
    ctx.check(not files, 'unexpected-file',
              lambda: f'files of episodes never flown: {sorted(files)[:4]}')

  def check_console(self, cfg, ctx, episodes, start):
    if 'console' not in cfg['kinds']:
      return
    if start == 0:
      # The log begins anew.
      self.tokens = [(t, False) for t, _ in self.tokens]
    for e in episodes:
      if cfg['fine']:
        self.tokens += [(('step', i) + s, e['ended'])
                        for i, s in enumerate(e['steps'])
                        if i % cfg['freq'] == 0]
      if e['over']:
        self.tokens.append((('episode', e['k'], e['steps']), e['ended']))
    path = os.path.join(self.base, 'metrics', 'console', 'console.log')
    if not cfg['to_file']:
      ctx.check(not os.path.exists(path), 'unexpected-file',
                'console.log was written although saving was off')
      return
    text = ''
    if os.path.exists(path):
      with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    found = sorted([(m.start(), 'step', m) for m in FINE.finditer(text)] +
                   [(m.start(), 'episode', m) for m in EPISODE.finditer(text)],
                   key=lambda x: x[0])
    # The records are those due, in order; the ones that may be missing may
    # look like their successors, so that all ways to skip them are followed.
    at = {0}
    for _, kind, m in found:
      after, due = set(), None
      for i in sorted(at):
        while i < len(self.tokens):
          if i + 1 in after:
            break
          tok, needed = self.tokens[i]
          if tok[0] == kind and self.agrees(cfg, ctx, tok, m):
            after.add(i + 1)
          if needed:
            due = due or tok
            break
          i += 1
      ctx.check(after or due, 'repeated-log',
                lambda: f'console.log has a record too many: {m.group(0)}')
      ctx.check(after, 'wrong-log', lambda: f'console.log has "{m.group(0)}" '
                f'where {brief(due)} is due')
      at = after
    rests = [[t for t, needed in self.tokens[i:] if needed] for i in at]
    rest = min(rests, key=len)
    ctx.check(not rest, 'episode-not-durable',
              lambda: f'console.log lacks {brief(rest[0])} and '
              f'{len(rest) - 1} more records')

  def agrees(self, cfg, ctx, tok, m):
    if tok[0] == 'step':
      _, i, a, r, t = tok
      return (int(m.group(1)) == i and int(m.group(2)) == a and
              abs(float(m.group(3)) - r) <= 1e-6 * max(1, abs(r)) and
              (m.group(4) == 'True') == t)
    _, k, steps = tok
    if int(m.group(1)) != k or int(m.group(3)) != len(steps):
      return False
    dist = [float(x) for x in m.group(4).replace(',', ' ').split()]
    for twice in (False, True):
      seq = steps + steps[-1:] * twice
      total = sum(r for _, r, _ in seq)
      want = [sum(a == j for a, _, _ in seq) / len(seq)
              for j in range(cfg['n_actions'])]
      if (abs(float(m.group(2)) - total) <= 0.00501 + 1e-9 * abs(total) and
          len(dist) == len(want) and
          all(abs(x - y) <= 2e-6 for x, y in zip(dist, want))):
        if twice:
          ctx.finding('T04-last-step-twice', 'wrong-log',
                      f'"{m.group(0)}" counts the last of {len(steps)} steps '
                      f'twice')
        return True
    return False

  def check_events(self, cfg, ctx, episodes, start, outcome):
    if 'tensorboard' not in cfg['kinds']:
      return
    d = os.path.join(self.base, 'metrics', 'tensorboard')
    new = sorted(set(os.listdir(d)) - self.seen) if os.path.isdir(d) else []
    self.seen |= set(new)
    got = {}
    for f in new:
      for tag, step, value in read_events(os.path.join(d, f)):
        got.setdefault(tag, []).append((step, value))
    want_r, want_l, needed = [], [], 0
    for e in episodes:
      if e['over']:
        total = sum(r for _, r, _ in e['steps'])
        want_r.append((e['k'], total, e['steps'][-1][1]))
        want_l.append((e['k'], len(e['steps'])))
        needed += e['ended']
    rew = got.pop('Train/EpisodeReward', [])
    length = got.pop('Train/EpisodeLength', [])
    fine = got.pop('Train/FineGrainedReward', [])
    ctx.check(not got, 'unexpected-summary', lambda: f'{sorted(got)}')
    ctx.check(needed <= len(length) <= len(want_l) and
              length == want_l[:len(length)], 'wrong-summary',
              lambda: 'episode lengths: ' + first_difference(length, want_l))
    ctx.check(needed <= len(rew) <= len(want_r), 'episode-not-durable',
              f'{len(rew)} episode rewards reported, {needed} episodes ended')
    for (k, v), (wk, total, last) in zip(rew, want_r):
      ctx.check(k == wk and (close(v, total) or close(v, total + last)),
                'wrong-summary', f'episode {k}: reward {v}, the steps of '
                f'episode {wk} add up to {total}')
      if not close(v, total):
        ctx.finding('T04-last-step-twice', 'wrong-summary',
                    f'the reward reported for episode {k} is {v}, its steps '
                    f'add up to {total}')
    if not cfg['fine']:
      ctx.check(not fine, 'unexpected-summary', 'fine-grained logging is off')
      return
    if not fine and not any(e['steps'] for e in episodes):
      return
    base = fine[0][0] if fine else 0
    if start > 0 and base == 0 and fine:
      ctx.finding('T04-global-step', 'wrong-summary',
                  f'after resuming at episode {start * cfg["epi"]} the steps '
                  f'are numbered from 0 again')
    variants = []
    for twice in (True, False):
      g, seq = base, []
      for e in episodes:
        for i, (_, r, _) in enumerate(e['steps']):
          if g % cfg['freq'] == 0:
            seq.append((g, r))
          g += 1
        if e['over'] and twice:
          seq.append((g, e['steps'][-1][1]))
          g += 1
      variants.append(seq)
    slack = 0 if outcome == 'done' else 2
    for n, seq in enumerate(variants):
      if len(seq) - slack <= len(fine) <= len(seq) and all(
          a[0] == b[0] and close(a[1], b[1]) for a, b in zip(fine, seq)):
        return
    ctx.check(base != 0 and start > 0, 'wrong-summary',
              lambda: 'step rewards: ' + first_difference(fine, variants[0]))


def close(a, b):
  return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))


def brief(tok):
  if tok[0] == 'episode':
    return (f'episode {tok[1]} of {len(tok[2])} steps with reward '
            f'{sum(s[1] for s in tok[2])}')
  return f'step {tok[1:]}'


def first_difference(got, want):
  for i, (a, b) in enumerate(zip(got, want)):
    if a != b:
      return f'record {i} is {a}, expected {b}'
  if len(got) == len(want):
    return 'same'
  return (f'{len(got)} records, expected {len(want)}; ' +
          (f'{want[len(got)]} is missing' if len(got) < len(want) else
           f'{got[len(want)]} is too many'))


def read_events(path):
  from tensorboard.backend.event_processing import event_file_loader
  np = rl.Lib.np
  import tensorflow as tf
  out = []
  for ev in event_file_loader.RawEventFileLoader(path).Load():
    e = tf.compat.v1.Event.FromString(ev)
    for v in e.summary.value:
      out.append((v.tag, int(e.step), float(tf.make_ndarray(v.tensor))))
  return out


PROP = T04()
