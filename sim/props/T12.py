"""T12: the training program trains what it was told to, where it was told to."""
import hashlib
import os

from sim import core
from sim import mains
from sim import rl
from sim import scratch

TRAIN = 'balloon_learning_environment.train'
PREFIX = {'dqn': 'JaxDQNAgent', 'quantile': 'JaxQuantileAgent'}
SIZE = 1099     # the default exploration reads named features
BUFFER = {'dqn': 'OutOfGraphReplayBuffer',
          'quantile': 'OutOfGraphPrioritizedReplayBuffer'}


class T12(core.Prop):
  id = 'T12'
  title = 'The training program does what its flags say, in its own directory'
  rule = ('seeded histories of training programs of several agents and run '
          'numbers sharing a base directory: lives of drawn flags and gin '
          'bindings, killed in the environment, started again, interleaved, '
          'next to starts with unknown names; the calls on the environment, '
          'the agent that was built, the checkpoints and every file below the '
          'base directory compared with what the flags say; non-trivial: a run '
          'was killed and completed, or two runs shared the directory')
  technique = ('seeded interleavings of program lives with kills over one '
               'shared directory')
  runs = {'quick': 260, 'thorough': 15000}
  real = ['train.main, run_helpers, agent_registry, the default gin files, '
          'train_lib, DQNAgent, QuantileAgent, MLPAgent, collectors']
  stub = ['scripted environment from gym.make', 'one flag registry']
  assumptions = ['programs of different runs do not run at the very same time']

  def setup(self):
    rl.Lib.load()
    mains.program(TRAIN)
    from balloon_learning_environment.agents import agent_registry
    from balloon_learning_environment.env import generative_wind_field
    from balloon_learning_environment.env import wind_field
    from balloon_learning_environment.utils import run_helpers
    self.helpers = run_helpers
    self.registry = agent_registry.REGISTRY
    self.agents = agent_registry
    from balloon_learning_environment.agents import agent
    from balloon_learning_environment.agents import random_walk_agent
    from balloon_learning_environment.agents import station_seeker_agent
    L = rl.Lib
    self.named = {
        'random': agent.RandomAgent, 'mlp': L.mlp.MLPAgent,
        'dqn': L.dqn.DQNAgent, 'quantile': L.quantile.QuantileAgent,
        'station_seeker': station_seeker_agent.StationSeekerAgent,
        'random_walk': random_walk_agent.RandomWalkAgent}
    self.fields = {'simple': wind_field.SimpleStaticWindField, 'generative':
                   generative_wind_field.generative_wind_field_factory}

  def generate(self, rng, tier):
    runs, seen = [], set()
    for _ in range(rng.choice([1, 2, 2, 3])):
      agent = rng.choice(['dqn', 'dqn', 'quantile', 'quantile', 'random', 'mlp'])
      number = rng.choice([None, 1, 2, 11, 12])
      if (agent, number or 1) in seen:
        continue
      seen.add((agent, number or 1))
      runs.append({'agent': agent, 'number': number,
                   'epi': rng.choice([1, 2, 3]),
                   'capacity': rng.choice([30, 200]),
                   'max_len': rng.choice([3, 4, 9]),
                   'wind': rng.choice(['simple', 'generative', None]),
                   'duration': rng.choice([1, 3, 5]),
                   'file': rng.random() < 0.25})
    cfg = {'runs': runs, 'seed': rng.randrange(2**31),
           'lengths': [rng.choice([3, 6, 1000, 1000]) for _ in range(5)],
           'base': rng.choice(['b', 'b/c', 'a b'])}
    ops = []
    for i, r in enumerate(runs):
      target = 0
      for _ in range(rng.randint(1, 3)):
        target += rng.choice([0, 1, 1, 2])
        kill = None
        if rng.random() < 0.5:
          kill = rng.randint(1, r['epi'] * (r['max_len'] + 1) * 2)
        ops.append(['life', i, target, kill, self.flags(rng)])
    # Keep the order of the lives of each run.
    order = [op[1] for op in ops]
    rng.shuffle(order)
    queues = {i: [o for o in ops if o[1] == i] for i in range(len(runs))}
    ops = [queues[i].pop(0) for i in order]
    for _ in range(rng.choice([0, 0, 1, 2])):
      ops.insert(rng.randint(0, len(ops)),
                 ['bad', rng.choice(['wind', 'agent', 'gin', 'value', 'file',
                                     'renderer'])])
    if rng.random() < 0.3:
      names = ['JaxDQNAgent.update_period', 'JaxDQNAgent.target_update_period',
               'JaxDQNAgent.gamma', 'JaxDQNAgent.epsilon_train']
      ops.insert(rng.randint(0, len(ops)), ['layers', [
          [rng.choice(['file', 'file', 'bind']),
           {k: rng.randint(1, 99) for k in names if rng.random() < 0.5}]
          for _ in range(rng.randint(0, 4))], rng.random() < 0.5])
    done = {o[1]: o[2] for o in ops if o[0] == 'life'}
    tail = [['life', i, done[i] + rng.choice([0, 1]), None, self.flags(rng)]
            for i in range(len(runs))]
    rng.shuffle(tail)
    return {'cfg': cfg, 'ops': ops + tail}

  def flags(self, rng):
    return {'collectors': rng.choice([None, ['console'], [], ['tensorboard'],
                                      ['console', 'nonsense']]),
            'period': rng.choice([None, 1, 4]), 'image': rng.random() < 0.1,
            'epsilon': rng.choice([0.0, 0.25, 1.0]),
            'update': rng.choice([None, 2, 7])}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('resumed', 0) > 0 or len(plan['cfg']['runs']) > 1

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = plan['cfg']
    root = scratch.fresh()
    self.root = root
    self.base = os.path.join(root, cfg['base'])
    self.state = [{'next': 0, 'learner': None, 'episodes': 0}
                  for _ in cfg['runs']]
    with rl.process(cfg['seed']):
      for name in ('random_walk', 'station_seeker'):
        agent = self.agents.agent_constructor(name)(
            3, observation_shape=(SIZE,))
        ctx.check(isinstance(agent, self.named[name]), 'wrong-agent',
                  f'{name} constructs {type(agent)}')
    self.cwd = os.getcwd()
    os.makedirs(os.path.join(root, 'cwd'))
    os.makedirs(self.base)
    os.chdir(os.path.join(root, 'cwd'))
    try:
      for n, op in enumerate(plan['ops']):
        with rl.process(cfg['seed'] + n):
          getattr(self, 'op_' + op[0])(cfg, ctx, n, *op[1:])
    finally:
      os.chdir(self.cwd)
      scratch.drop(root)

  def snapshot(self):
    out = {}
    for d, _, files in os.walk(self.root):
      for f in files:
        p = os.path.join(d, f)
        with open(p, 'rb') as g:
          out[os.path.relpath(p, self.root)] = hashlib.md5(g.read()).hexdigest()
    return out

  def bindings(self, r, f):
    a = r['agent']
    if a == 'mlp':
      return {'networks.MLPNetwork.hidden_units': 8,
              'networks.MLPNetwork.num_layers': 2,
              'MLPAgent.gamma': f['epsilon'] / 2 + 0.25}
    if a not in PREFIX:
      return {}
    p, b = PREFIX[a], BUFFER[a]
    net = ('agents.networks.QuantileNetwork' if a == 'quantile'
           else 'networks.MLPNetwork')
    cls = ('QuantileAgent' if a == 'quantile' else
           'balloon_learning_environment.agents.dqn_agent.DQNAgent')
    out = {f'{net}.num_layers': 2, f'{net}.hidden_units': 8,
           f'{cls}.checkpoint_duration': r['duration'],
           f'{p}.update_horizon': 1, f'{p}.min_replay_history': 12,
           f'{p}.epsilon_train': f['epsilon'],
           f'{b}.replay_capacity': r['capacity'], f'{b}.batch_size': 8}
    if a == 'quantile':
      out['JaxQuantileAgent.num_atoms'] = 5
    if f['update'] is not None:
      out[f'{p}.update_period'] = f['update']
    return out

  def argv(self, cfg, r, target, f):
    out = [f'--base_dir={self.base}', f'--num_iterations={target}',
           f'--max_episode_length={r["max_len"]}', f'--agent={r["agent"]}',
           f'--episodes_per_iteration={r["epi"]}']
    if r['number'] is not None:
      out.append(f'--run_number={r["number"]}')
    if r['wind']:
      out.append(f'--wind_field={r["wind"]}')
    if f['period'] is not None:
      out.append(f'--render_period={f["period"]}')
    bind = self.bindings(r, f)
    if r['file'] and r['agent'] in PREFIX:
      # Half of the parameters in a file that includes the default one.
      path = os.path.join(self.root, f'{r["agent"]}{r["number"]}.gin')
      keys = sorted(bind)[::2]
      with open(path, 'w') as g:
        g.write(f"include '{self.registry[r['agent']][1]}'\n")
        for k in sorted(bind):   # the others are overridden by the bindings
          g.write(f'{k} = {bind.pop(k) if k in keys else 1!r}\n')
      out.append(f'--agent_gin_file={path}')
    out += [f'--gin_bindings={k}={v!r}' for k, v in sorted(bind.items())]
    if f['collectors'] is not None:
      # A repeated flag replaces its default; the empty list has no spelling.
      out += [f'--collectors={c}' for c in f['collectors'] or ['none']]
    return out

  def op_life(self, cfg, ctx, n, i, target, kill, f):
    np = rl.Lib.np
    r, state = cfg['runs'][i], self.state[i]
    argv = self.argv(cfg, r, target, f)
    env = Env(cfg['seed'] + i, ctx, cfg['lengths'],
              start_episode=state['episodes'])
    env.image = np.full((4, 4, 3), 128, np.uint8) if f['image'] else None
    env.kill_at = kill
    made, agents = [], []

    def make(*a, **k):
      made.append((a, k))
      return env
    before = self.snapshot()
    own = os.path.relpath(os.path.join(self.base, r['agent'],
                                       str(r['number'] or 1)), self.root)
    outcome = 'done'
    with mains.gym_make(make), self.spied(r['agent'], agents, state):
      try:
        mains.run(TRAIN, argv)
      except core.SimCrash:
        outcome = 'killed'
    what = f'life {n} of {r["agent"]} {r["number"]}'
    start = state['next'] if r['agent'] in PREFIX else 0
    self.construction(ctx, what, r, f, made, agents, env)
    if start and outcome == 'done' and env.ncalls:
      ctx.probe('resumed')
    # -- the flights
    episodes = env.flights()
    want = max(0, target - start) * r['epi']
    if outcome == 'done':
      ctx.check(len(episodes) == want, 'wrong-number', f'{what}: '
                f'{len(episodes)} episodes, {want} are left to iteration '
                f'{target} from {start}')
    else:
      ctx.check(len(episodes) <= want, 'wrong-number', f'{what}: killed in '
                f'episode {len(episodes)} of {want}')
    complete = 0
    for k, steps in enumerate(episodes):
      last = k + 1 == len(episodes) and outcome == 'killed'
      full = min(r['max_len'], env.length(state['episodes'] + k))
      ctx.check(steps == full or last and steps <= full, 'wrong-length',
                f'{what}: episode {k} has {steps} steps instead of {full}')
      complete += steps == full
    done = start + complete // r['epi'] if r['agent'] in PREFIX else 0
    if outcome == 'done':
      done = max(done, start)
    # -- rendering
    period = f['period'] or 10
    renders = [x for x in env.renders if x[2] == 'human']
    due = sum(sum(1 for t in range(s) if t % period == 0) for s in episodes)
    slack = 1 if outcome == 'killed' else 0
    ctx.check(due - slack <= len(renders) <= due, 'wrong-rendering', f'{what}: '
              f'rendered {len(renders)} times instead of {due}')
    # -- files
    after = self.snapshot()
    image = os.path.relpath(os.path.join(self.base, 'balloon_path.png'),
                            self.root)
    wrong = sorted(p for p in set(before) | set(after)
                   if before.get(p) != after.get(p) and
                   not p.startswith(own + os.sep) and p != image and
                   not (p.endswith('.gin') and os.sep not in p))
    ctx.check(not wrong, 'other-files', lambda: f'{what}: changed {wrong[:4]} '
              f'outside {own}')
    ctx.check(after.get(image) == before.get(image) or
              outcome == 'done' and f['image'], 'other-files',
              f'{what}: wrote an image it was not given')
    ctx.check(not f['image'] or outcome != 'done' or image in after,
              'no-image', f'{what}: the last image was not saved')
    self.collected(ctx, what, f, own, before, after, outcome)
    if r['agent'] in PREFIX:
      d = os.path.join(self.root, own, 'checkpoints')
      its = rl.iterations(d)
      ctx.check((max(its) if its else -1) == done - 1, 'wrong-checkpoint',
                f'{what}: checkpoints {its} after {done} iterations')
    state['next'] = done
    if r['agent'] in PREFIX:
      state['episodes'] = done * r['epi']
    ctx.log('life', i, target, start, outcome, len(episodes), sum(episodes))
    ctx.state(r['agent'], outcome, start > 0, f['collectors'], want > 0)
    ctx.probe('lives')

  def construction(self, ctx, what, r, f, made, agents, env):
    wind = self.fields[r['wind'] or 'generative']
    ctx.check(len(made) == 1 and made[0][0] == ('BalloonLearningEnvironment-v0',)
              and made[0][1].get('wind_field_factory') is wind and
              made[0][1].get('renderer') is None, 'wrong-environment', lambda:
              f'{what}: gym.make{made}')
    ctx.check(len(agents) == 1, 'wrong-agent', f'{what}: {len(agents)} agents')
    agent, args, loaded = agents[0]
    ctx.check(args == (3, (SIZE,)), 'wrong-agent', f'{what}: built for {args}')
    ctx.check(isinstance(agent, self.named[r['agent']]), 'wrong-agent',
              f'{what}: got {type(agent)}')
    if r['agent'] == 'mlp':
      got = {'gamma': vars(agent).get('_gamma'), 'units': max(
          max(x.shape[-1] for x in rl.leaves(agent.network_params)), 3)}
      want = {'gamma': f['epsilon'] / 2 + 0.25, 'units': 8}
    elif r['agent'] in PREFIX:
      got = {'capacity': agent._replay._replay_capacity,
             'batch': agent._replay._batch_size, 'epsilon': agent.epsilon_train,
             'history': agent.min_replay_history,
             'update': agent.update_period, 'gamma': agent.gamma,
             'duration': vars(agent).get('_checkpoint_duration', 'unknown'),
             'target': agent.target_update_period,
             'horizon': agent.update_horizon}
      want = {'capacity': r['capacity'], 'batch': 8, 'epsilon': f['epsilon'],
              'history': 12, 'update': f['update'] or 4, 'gamma': 0.993,
              'duration': r['duration'], 'target': 100, 'horizon': 1}
    else:
      got = want = None
    if got and got.get('gamma') is None:
      del want['gamma'], got['gamma']
    if got and got.get('duration') == 'unknown':   # not kept under that name
      del want['duration'], got['duration']
    ctx.check(got == want, 'wrong-parameters', lambda: f'{what}: the agent has '
              f'{got}, configured {want}')
    ctx.check(loaded is None, 'not-resumed', f'{what}: the agent differs from '
              f'the last complete checkpoint in its {loaded}')

  def collected(self, ctx, what, f, own, before, after, outcome):
    used = ['console'] if f['collectors'] is None else f['collectors']
    for name, part in (('console', 'console'), ('tensorboard', 'tensorboard')):
      p = os.path.join(own, 'metrics', part) + os.sep
      changed = any(before.get(x) != after.get(x) for x in after
                    if x.startswith(p))
      ctx.check(name in used or not changed, 'wrong-collectors', f'{what}: '
                f'collectors {used}, but {name} wrote files')

  def spied(self, name, agents, state):
    ctor, config = self.registry[name]
    outer = self

    def construct(num_actions, observation_shape):
      agent = ctor(num_actions, observation_shape=observation_shape)
      entry = [agent, (num_actions, tuple(observation_shape)), None]
      agents.append(entry)
      if name in PREFIX:
        reload, save = agent.reload_latest_checkpoint, agent.save_checkpoint

        def reloaded(d):
          n = reload(d)
          if state['learner'] is not None:
            entry[2] = rl.diff_learner(state['learner'], rl.learner(agent))
          return n

        def saved(d, n):
          save(d, n)
          state['learner'] = rl.learner(agent)
        agent.reload_latest_checkpoint = reloaded
        agent.save_checkpoint = saved
      return agent
    return mains.registered(name, construct, config)

  def op_layers(self, cfg, ctx, n, layers, own):
    """The defaults, then the files in their order, then the bindings."""
    gin = rl.Lib.gin
    d = os.path.join(self.root, f'layers{n}')
    os.makedirs(d)
    want = {'JaxDQNAgent.update_period': 4, 'JaxDQNAgent.gamma': 0.993,
            'JaxDQNAgent.target_update_period': 100}
    files, bindings = [], []
    main = os.path.join(d, 'own.gin')
    with open(main, 'w') as g:
      g.write(f"include '{self.registry['dqn'][1]}'\n"
              'JaxDQNAgent.gamma = 0.5\n')
    if own:
      want['JaxDQNAgent.gamma'] = 0.5
    for kind in ('file', 'bind'):
      for j, (k, values) in enumerate(layers):
        if k != kind:
          continue
        want.update(values)
        lines = [f'{a} = {b}' for a, b in sorted(values.items())]
        if kind == 'file':
          files.append(os.path.join(d, f'{j}.gin'))
          with open(files[-1], 'w') as g:
            g.write('\n'.join(lines) + '\n')
        else:
          bindings += lines
    gin.clear_config()
    self.helpers.bind_gin_variables('dqn', main if own else None, bindings,
                                    additional_gin_files=files)
    got = {k: gin.query_parameter(k) for k in want}
    ctx.check(got == want, 'wrong-parameters', lambda: f'the gin files and '
              f'bindings {layers} gave {got} instead of {want}')
    ctx.probe('layers')
    ctx.log('layers', sorted(want.items()))
    gin.clear_config()
    for p in files + [main]:
      os.remove(p)
    os.rmdir(d)

  def op_bad(self, cfg, ctx, n, kind):
    """A start that names what does not exist fails before it does anything."""
    r = dict(cfg['runs'][0], file=False)
    f = {'collectors': None, 'period': None, 'image': False, 'epsilon': 0.25,
         'update': None}
    argv = self.argv(cfg, r, 9, f)
    argv.append({'wind': '--wind_field=breezy', 'agent': '--agent=dqnn',
                 'gin': '--gin_bindings=NoSuchThing.value=1',
                 'value': '--gin_bindings=MLPNetwork.no_such_parameter=1',
                 'file': '--agent_gin_file=' + os.path.join(self.root, 'no.gin'),
                 'renderer': '--renderer=abacus'}[kind])
    env = Env(cfg['seed'], ctx, cfg['lengths'])
    before, error = self.snapshot(), None
    with mains.gym_make(lambda *a, **k: env):
      try:
        mains.run(TRAIN, argv)
      except Exception as e:  # noqa
        error = e
    ctx.check(error is not None, 'bad-start', f'started with {argv[-1]}')
    ctx.check(env.ncalls == 0 and self.snapshot() == before, 'bad-start',
              f'a start with {argv[-1]} did something before it failed')
    ctx.probe('bad_start')
    ctx.fault('bad_flag')
    ctx.log('bad', kind, type(error).__name__)


class Env(rl.ScriptEnv):
  image = None

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.observation_space = mains.Spaces(None, (SIZE,))

  def obs(self, e, t):
    np = rl.Lib.np
    return np.resize(super().obs(e, t), SIZE)

  def render(self, mode='human'):
    self.renders.append((self.episode, self.t, mode))
    return self.image if mode == 'rgb_array' else None

  def flights(self):
    """Steps of each episode so far."""
    out = []
    for c in self.calls:
      if c[0] == 'reset':
        out.append(0)
      else:
        out[-1] += 1
    return out


PROP = T12()
