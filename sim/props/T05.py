"""T05: sharded evaluation equals unsharded evaluation."""
import json
import os

from sim import core
from sim import evalenv
from sim import faultfs
from sim import mains
from sim import rl
from sim import scratch

EVAL = 'balloon_learning_environment.eval.eval'
COMBINE = 'balloon_learning_environment.eval.combine_eval_shards'
MODELS = ('quantile', 'dqn', 'dqn_2', 'my.agent', 'a[1]', 'agent+', 'Ünit', 'x_')


SIZES = {'big_eval': 10000, 'medium_eval': 1000, 'small_eval': 100,
         'tiny_eval': 10, 'micro_eval': 1}
STRATA = tuple(f'{s}_strata' for s in (
    'hardest', 'hard', 'mid', 'easy', 'easiest'))


class T05(core.Prop):
  id = 'T05'
  title = 'Sharded evaluation equals unsharded evaluation'
  rule = ('seeded histories of the evaluation and combining programs in one '
          'directory: shards of several agents in any order, killed or hit by '
          'I/O errors and run again, combined early, repeatedly and at the '
          'end, next to files of other agents; every file compared with the '
          'results of an unsharded evaluation worked out separately; '
          'non-trivial: every shard of one agent combined')
  technique = ('seeded interleavings of shard and combine processes with '
               'kills, torn files and I/O errors')
  runs = {'quick': 700, 'thorough': 25000}
  real = ['eval.py, combine_eval_shards.py, eval_lib, suites, run_helpers']
  stub = ['scripted environment and agent', 'file system seam',
          'one flag registry per program']
  assumptions = ['one number of shards per agent and directory',
                 'no two programs write the same file at the same time']

  def setup(self):
    rl.Lib.load()
    mains.program(EVAL)
    mains.program(COMBINE)
    from balloon_learning_environment.eval import suites
    self.suites = suites

  def generate(self, rng, tier):
    names = list(MODELS)
    rng.shuffle(names)
    # The combined file of dqn_2 would be taken for a shard of dqn (known).
    names.remove(rng.choice(['dqn', 'dqn_2']))
    models = []
    for name in names[:rng.choice([1, 1, 2, 3])]:
      models.append({'name': name, 'shards': rng.choice([1, 2, 3, 4, 7, 11, 13]),
                     'via': rng.choice(['agent', 'override', 'override',
                                        'checkpoint'])})
    suite = rng.choice(['tiny_eval'] * 30 + ['micro_eval'] * 8 +
                       ['small_eval', 'hard_strata', 'easiest_strata'])
    if rng.random() < 0.01:
      suite = rng.choice(['medium_eval', 'all_strata', 'mid_strata'])
    if rng.random() < 0.012:
      # As many machines as 'big_eval' is meant for.
      models[-1]['shards'] = rng.choice([101, 120])
    cfg = {'models': models, 'suite': suite, 'env_seed': rng.randrange(2**31),
           'length': rng.choice([1, 2, 3, 5]), 'end': rng.choice([0.0, 0.3]),
           'pretty': rng.random() < 0.3, 'paths': rng.random() < 0.3,
           'reactive': False, 'dir': rng.choice(['out', 'out', 'a b', 'r[0-9]',
                                                 'x*'])}
    ops = []
    for m, model in enumerate(models):
      order = list(range(model['shards']))
      rng.shuffle(order)
      for s in order:
        r = rng.random()
        if r < 0.25:
          fault = rng.choice([
              ['env', rng.randint(1, 30)],
              ['fs', rng.choice([1, 2, 3, rng.randint(1, 40), rng.randint(1, 900)]),
               rng.choice([0.0, 0.5, 1.0])],
              ['io', rng.choice([0, 1, 2, rng.randint(0, 300)]),
               rng.choice(['enospc', 'eio']), rng.choice([0.0, 0.5, 1.0])]])
          ops.append(['shard', m, s, fault])
        ops.append(['shard', m, s, None])
        if rng.random() < 0.1:
          ops.append(['shard', m, s, None])
    rng.shuffle(ops)
    out = []
    for op in ops:
      out.append(op)
      if rng.random() < 0.15:
        fault = None
        if rng.random() < 0.4:
          fault = rng.choice([['fs', rng.randint(1, 60), rng.choice([0.0, 0.5])],
                              ['io_r', rng.randint(0, 12), 'eio'],
                              ['io', rng.randint(0, 12), 'enospc', 0.5]])
        out.append(['combine', rng.randrange(len(models)), fault])
      if rng.random() < 0.15:
        out.append(['foreign', rng.randrange(len(models)), rng.choice(
            ['suffix', 'prefix', 'longer', 'other', 'text', 'backup', 'dir',
             'minus', 'nested'])])
    for m, model in enumerate(models):
      for s in range(model['shards']):
        if rng.random() < 0.9:
          out.append(['mend', m, s])
    for m in range(len(models)):
      out.append(['combine', m, None])
    if rng.random() < 0.5:
      out.append(['combine_all', None])
    if rng.random() < 0.04:
      out.append(['ambiguous', 0])
    return {'cfg': cfg, 'ops': out}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('complete', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    self.base = scratch.fresh()
    self.out = os.path.join(self.base, cfg['dir'])
    self.dir = os.path.join(self.out, cfg['suite'])
    self.seeds = self.suite(cfg, ctx)
    self.flights = {}
    self.state = {}      # file name -> whole results, or 'torn'
    self.foreign = {}
    real = self.suites.get_eval_suite

    def short(name):
      s = real(name)
      s.max_episode_length = cfg['length']
      return s
    self.suites.get_eval_suite = short
    try:
      for op in plan['ops']:
        getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
    finally:
      self.suites.get_eval_suite = real
      scratch.drop(self.base)

  def suite(self, cfg, ctx):
    """The seeds of the suite, which has to be as documented."""
    names = set(SIZES) | set(STRATA) | {'all_strata'}
    missing = names - set(self.suites.available_suites())
    ctx.check(not missing, 'wrong-suite', f'no suites {sorted(missing)}')
    out = None
    for name in sorted(names):
      suite = self.suites.get_eval_suite(name)
      seeds = list(suite.seeds)
      ctx.check(suite.max_episode_length == 960, 'wrong-suite', f'{name} has '
                f'episodes of {suite.max_episode_length} steps, not two days')
      if name in SIZES:
        want = list(range(SIZES[name]))
      elif name in STRATA:
        ctx.check(len(seeds) == len(set(seeds)), 'wrong-suite', f'{name} has '
                  f'{len(seeds)} seeds, {len(set(seeds))} of them different')
        want = sorted(set(seeds))
      else:
        want = sorted(x for s in STRATA
                      for x in self.suites.get_eval_suite(s).seeds)
      ctx.check(sorted(seeds) == want, 'wrong-suite', lambda: f'{name} has '
                f'{len(seeds)} seeds, from {seeds[:1]} to {seeds[-1:]}')
      # What one user does to a suite is no concern of the next.
      suite.seeds.reverse()
      del suite.seeds[len(seeds) // 2:]
      suite.max_episode_length = 1
      again = self.suites.get_eval_suite(name)
      ctx.check(list(again.seeds) == seeds and again.max_episode_length == 960,
                'shared-suite', f'{name} changes with the object it gave')
      if name == cfg['suite']:
        out = seeds
    return out

  def flight(self, cfg, seed):
    if seed not in self.flights:
      self.flights[seed] = evalenv.expected(cfg, seed, cfg['length'])
    return self.flights[seed]

  def base_name(self, model, m):
    return {'agent': model['name'], 'override': model['name'],
            'checkpoint': model['name'] + '_7'}[model['via']]

  def op_mend(self, cfg, ctx, m, s):
    """Runs a shard again unless its file is whole."""
    model = cfg['models'][m]
    if not isinstance(self.state.get(self.file(model, m, s)), list):
      self.op_shard(cfg, ctx, m, s, None)

  def file(self, model, m, s):
    b = self.base_name(model, m)
    return f'{b}_{s}.json' if model['shards'] > 1 else f'{b}.json'

  def op_shard(self, cfg, ctx, m, s, fault):
    model = cfg['models'][m]
    ecfg = dict(cfg, n_actions=3)
    env = evalenv.EvalEnv(ecfg, ctx)
    fs = faultfs.FaultFS(self.base, ctx)
    self.arm(fs, fault, env)
    agent = 'sim' if model['via'] == 'override' else model['name']
    argv = [f'--agent={agent}', f'--suite={cfg["suite"]}',
            '--wind_field=simple', f'--output_dir={self.out}',
            f'--num_shards={model["shards"]}', f'--shard_idx={s}']
    if cfg['pretty']:
      argv.append('--pretty_json')
    if model['via'] == 'override':
      argv.append(f'--name_override={model["name"]}')
      if s % 2:
        argv.append('--checkpoint_idx=3')
    if model['via'] == 'checkpoint':
      argv += ['--checkpoint_idx=7', '--checkpoint_dir=ckpt/of/' + str(s)]
    calls = []
    name = self.file(model, m, s)
    with mains.registered(agent, lambda n, observation_shape: make_agent(
        n, observation_shape, calls)), \
        mains.gym_make(lambda *a, **k: env):
      outcome = self.process(ctx, fs, EVAL, argv)
    ctx.log('shard', name, outcome, env.ncalls, fs.n)
    ctx.state('shard', outcome, fs.log[-1][0] if fs.dead and fs.log else '',
              model['shards'], s)
    if model['via'] == 'checkpoint' and 'flight' in calls:
      ctx.check([c for c in calls if c != 'flight'] ==
                [('load', f'ckpt/of/{s}', 7)] and calls[0] != 'flight',
                'wrong-checkpoint', lambda: f'evaluating checkpoint 7 of '
                f'ckpt/of/{s} began with {calls[:2]}')
    path = os.path.join(self.dir, name)
    got = read(path)
    before = self.state.get(name)
    # Which seeds this shard is responsible for shows in what it reports.
    if outcome == 'done':
      ctx.check(isinstance(got, list), 'no-result',
                f'evaluating {name} finished without a readable result')
    if isinstance(got, list):
      seeds = [g.get('seed') for g in got]
      pos = self.positions(seeds)
      ctx.check(pos is not None, 'wrong-seeds', lambda: f'{name} has the '
                f'seeds {seeds[:12]}, not a part of the suite in order')
      for g, seed in zip(got, seeds):
        d = evalenv.difference(g, self.flight(cfg, seed))
        ctx.check(d is None, 'wrong-result', lambda: f'{name}, seed {seed}: {d}')
      if model['shards'] == 1:
        ctx.check(len(got) == len(self.seeds), 'wrong-seeds',
                  f'{name} has {len(got)} of {len(self.seeds)} seeds')
      self.state[name] = got
    elif os.path.exists(path):
      self.state[name] = 'torn'
      ctx.probe('torn')
    else:
      ctx.check(before is None, 'result-lost', f'{name} disappeared')
    files = self.listing() - set(self.state) - set(self.foreign)
    ctx.check(not files, 'unexpected-file', lambda: f'{sorted(files)}')

  def positions(self, seeds):
    """Position of a run of seeds in the suite, None if it is not one."""
    if not seeds:
      return 0
    for i, s in enumerate(self.seeds):
      if s == seeds[0] and self.seeds[i:i + len(seeds)] == seeds:
        return i
    return None

  def arm(self, fs, fault, env):
    if fault is None:
      return
    if fault[0] == 'env':
      env.kill_at = fault[1]
    elif fault[0] == 'fs':
      fs.crash_at, fs.keep = fault[1], fault[2]
    elif fault[0] == 'io':
      fs.write_error, fs.keep = (fault[1], fault[2]), fault[3]
    elif fault[0] == 'io_r':
      fs.read_error = (fault[1], fault[2])

  def process(self, ctx, fs, program, argv):
    with fs.installed():
      try:
        mains.run(program, argv)
      except core.SimCrash:
        if not fs.dead:
          try:
            fs.kill()
          except core.SimCrash:
            pass
        return 'killed'
      except json.JSONDecodeError:
        return 'unreadable'
      except UnicodeDecodeError:
        return 'unreadable'
      except OSError as e:
        if fs.error_raised is None:
          if isinstance(e, FileNotFoundError) and not os.path.isdir(self.dir):
            return 'no directory'
          raise
        return 'io error'
    ctx.check(fs.error_raised is None, 'lost-error',
              lambda: f'{fs.error_raised} was swallowed')
    return 'done'

  def listing(self):
    return set(os.listdir(self.dir)) if os.path.isdir(self.dir) else set()

  def shards_of(self, model, m):
    b = self.base_name(model, m)
    if model['shards'] == 1:
      return []
    return [f'{b}_{s}.json' for s in range(model['shards'])]

  def op_combine(self, cfg, ctx, m, fault):
    model = cfg['models'][m]
    self.combine(cfg, ctx, [(model, m)], fault)

  def op_combine_all(self, cfg, ctx, fault):
    self.combine(cfg, ctx, [(x, i) for i, x in enumerate(cfg['models'])], fault)

  def combine(self, cfg, ctx, which, fault):
    which = [(x, i) for x, i in which if x['shards'] > 1]
    if not which or not os.path.isdir(self.dir):
      return
    fs = faultfs.FaultFS(self.base, ctx)
    self.arm(fs, fault, None)
    argv = [f'--path={self.dir}'] + [f'--models={self.base_name(*x)}'
                                     for x in which]
    if cfg['pretty']:
      argv.append('--pretty_json')
    if cfg['paths']:
      argv.append('--flight_paths')
    before = {n: raw(os.path.join(self.dir, n)) for n in self.listing()}
    outcome = self.process(ctx, fs, COMBINE, argv)
    combined = {self.base_name(*x) + '.json' for x in which}
    ctx.log('combine', sorted(combined), outcome, fs.n)
    torn = [n for x in which for n in self.shards_of(*x)
            if self.state.get(n) == 'torn']
    ctx.state('combine', outcome, len(torn), len(before))
    # Everything but the combined files stays as it was.
    for n, data in before.items():
      if n not in combined:
        ctx.check(raw(os.path.join(self.dir, n)) == data, 'shard-altered',
                  f'combining altered or removed {n}')
    extra = self.listing() - set(before) - combined
    ctx.check(not extra, 'unexpected-file', lambda: f'{sorted(extra)}')
    for n in combined & self.listing():
      self.foreign.setdefault(n, None)
    if outcome == 'unreadable':
      ctx.check(torn, 'combine-failed', 'combining failed although no shard '
                'is damaged')
    if outcome != 'done':
      return
    ctx.check(not torn, 'damaged-shard-skipped', lambda: f'{torn} are damaged, '
              f'combining did not mind')
    for x in which:
      self.check_combined(cfg, ctx, *x)

  def check_combined(self, cfg, ctx, model, m):
    name = self.base_name(model, m) + '.json'
    data = read(os.path.join(self.dir, name))
    ctx.check(isinstance(data, list), 'no-result', f'{name} is not readable')
    parts = [self.state[n] for n in self.shards_of(model, m)
             if isinstance(self.state.get(n), list)]
    want = sorted(g['seed'] for p in parts for g in p)
    got = [g.get('seed') for g in data]
    extra = self.ambiguous(model, m)
    if extra and got == sorted(want + extra):
      ctx.finding('T05-ambiguous', 'wrong-combined',
                  f'{name} contains the results of a checkpoint whose file is '
                  f'named like a shard')
      return
    ctx.check(got == want, 'wrong-combined', lambda: f'{name} has '
              f'{len(got)} results {got[:12]}, the shards present have '
              f'{len(want)}: {want[:12]}')
    for g in data:
      w = dict(self.flight(cfg, g['seed']))
      if not cfg['paths']:
        w['flight_path'] = []
      d = evalenv.difference(g, w)
      ctx.check(d is None, 'wrong-result', lambda: f'{name}, seed '
                f'{g["seed"]}: {d}')
    if all(isinstance(self.state.get(n), list)
           for n in self.shards_of(model, m)):
      ctx.check(got == sorted(self.seeds), 'shards-incomplete',
                lambda: f'all {model["shards"]} shards together have '
                f'{len(got)} of {len(self.seeds)} seeds')
      ctx.probe('complete')

  # -- files of others -----------------------------------------------------

  def op_foreign(self, cfg, ctx, m, kind):
    b = self.base_name(cfg['models'][m], m)
    name = {'suffix': f'{b}2_0.json', 'prefix': f'old_{b}_0.json',
            'longer': f'{b}_best_1.json', 'other': 'zzz_0.json',
            'text': f'{b}_0.json.bak', 'backup': f'{b}_0_old.json',
            'dir': f'{b}_parts', 'minus': f'{b}-1.json',
            'nested': f'{b}_0_1.json'}[kind]
    path = os.path.join(self.dir, name)
    os.makedirs(self.dir, exist_ok=True)
    if os.path.exists(path):
      return
    ctx.fault('foreign_file')
    if kind == 'dir':
      os.makedirs(path)
    else:
      with open(path, 'w') as f:
        json.dump([dict(self.flight(cfg, self.seeds[0]), seed=-7)], f)
    self.foreign[name] = kind

  def op_ambiguous(self, cfg, ctx, m):
    """An unsharded evaluation of checkpoint 100 of the same agent."""
    model = cfg['models'][m]
    if model['shards'] == 1:
      return
    os.makedirs(self.dir, exist_ok=True)
    name = self.base_name(model, m) + '_100.json'
    with open(os.path.join(self.dir, name), 'w') as f:
      json.dump([self.flight(cfg, s) for s in self.seeds], f)
    self.foreign[name] = 'ambiguous'
    self.op_combine(cfg, ctx, m, None)

  def ambiguous(self, model, m):
    name = self.base_name(model, m) + '_100.json'
    return list(self.seeds) if name in self.foreign else []


def make_agent(num_actions, observation_shape, calls):
  from balloon_learning_environment.agents import agent

  class Stub(agent.Agent):

    def load_checkpoint(self, checkpoint_dir, iteration_number):
      calls.append(('load', checkpoint_dir, iteration_number))
      return True

    def begin_episode(self, observation):
      calls.append('flight')
      return 1

    def step(self, reward, observation):
      return 1

    def end_episode(self, reward, terminal=True):
      pass
  return Stub(num_actions, observation_shape)


def read(path):
  try:
    with open(path, encoding='utf-8') as f:
      return json.load(f)
  except (OSError, ValueError):
    return None


def raw(path):
  if os.path.isdir(path):
    return 'dir'
  try:
    with open(path, 'rb') as f:
      return f.read()
  except OSError:
    return None


PROP = T05()
