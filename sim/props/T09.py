"""T09: the replay memory holds exactly the transitions that were flown."""
import os

from sim import core
from sim import evalenv
from sim import rl
from sim import scratch


class T09(core.Prop):
  id = 'T09'
  title = 'Replay memory holds exactly the transitions that were flown'
  rule = ('seeded lives of learning agents: the real training loop over '
          'scripted episodes (terminal, cut off, of one step, longer than the '
          'memory), killed and restarted from checkpoints, episodes driven by '
          'hand, evaluations in between (eval_lib or by hand), exploration '
          'overriding actions by a drawn scheme or by the Marco Polo schedule, '
          'with and without learning; after every operation the memory and all '
          'batches it can yield are compared with the flown history; '
          'non-trivial: a cut-off or overridden transition was stored')
  technique = ('seeded histories of episodes, modes and restarts against the '
               'record of the flown transitions')
  runs = {'quick': 800, 'thorough': 40000}
  real = ['train_lib.run_training_loop, eval_lib.eval_agent, DQNAgent, '
          'QuantileAgent, MarcoPoloExploration, Dopamine replay memories']
  stub = ['scripted environments', 'overriding exploration wrapper']
  assumptions = ['an episode is ended with end_episode, or the process dies']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.eval import eval_lib
    from balloon_learning_environment.eval import suites
    self.eval_lib, self.suites = eval_lib, suites

  def generate(self, rng, tier):
    agent = rng.choice(['dqn', 'quantile', 'quantile'])
    cfg = {'agent': agent, 'seed': rng.randrange(2**31),
           'explore': rng.choice([None, 'override', 'override', 'marco'])
           if agent == 'quantile' else None,
           'p': rng.choice([0.2, 0.5, 1.0]),
           'capacity': rng.choice([25, 60, 400]),
           'min_history': rng.choice([12, 10**6, 10**6]),
           'epsilon': rng.choice([0.0, 0.2, 1.0]),
           'epi': rng.choice([1, 2, 3]),
           'max_len': rng.choice([1, 2, 3, 7, 30]),
           'lengths': [rng.choice([1, 2, 5, 7, 30, 1000, 1000])
                       for _ in range(5)],
           'env_seed': rng.randrange(2**31), 'duration': 10}
    if cfg['min_history'] == 12:
      cfg['max_len'] = rng.choice([3, 7, 30])
      cfg['lengths'] = [max(3, n) for n in cfg['lengths']]
    if cfg['explore'] == 'marco':
      cfg.update(max_len=rng.choice([81, 125, 210]), epi=1, lengths=[
          rng.choice([90, 122, 1000]) for _ in range(5)])
    ops, target = [], 0
    for _ in range(rng.randint(1, 5)):
      r = rng.random()
      if r < 0.5:
        target += rng.choice([1, 1, 2])
        per = cfg['epi'] * (cfg['max_len'] + 1)
        kill = rng.randint(1, 2 * per) if rng.random() < 0.3 else None
        ops.append(['loop', target, kill])
        if kill or rng.random() < 0.3:
          ops.append(['restart', rng.randrange(9973)])
      elif r < 0.75:
        low = 3 if cfg['min_history'] == 12 else 1
        ops.append(['hand', rng.randint(low, 12), rng.random() < 0.5])
      elif r < 0.88:
        ops.append(['eval_lib', rng.randint(1, 3), rng.randint(1, 9)])
      else:
        ops.append(['eval_hand', rng.randint(1, 9), rng.random() < 0.5,
                    rng.random() < 0.5])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('cut_off', 0) + ctx.probes.get('overridden', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = dict(plan['cfg'])
    self.base = scratch.fresh()
    self.overrides = 0
    if cfg['explore'] == 'override':
      cfg['_exploration'] = lambda n, s: self.override(cfg, n, s)
    elif cfg['explore'] == 'marco':
      cfg['_exploration'] = lambda n, s: rl.Lib.marco.MarcoPoloExploration(
          n, s, exploratory_episode_probability=1.0, seed=cfg['seed'] % 1000,
          exploratory_agent_constructor=lambda n, s: self.explorer(cfg, n, s))
    rl.bind(cfg)
    self.saved = {}            # iteration -> flown transitions it contains
    self.flown = []
    try:
      self.start(cfg, ctx, cfg['seed'] % 1000)
      dead = False
      for op in plan['ops']:
        if dead and op[0] != 'restart':
          continue
        if op[0] == 'restart':
          self.start(cfg, ctx, op[1])
          dead = False
          continue
        with rl.process(cfg['seed'] + len(ctx.trace)):
          dead = getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
        if not dead:
          self.compare(cfg, ctx, op)
        ctx.state(op[0], cfg['agent'], cfg['explore'], cfg['capacity'],
                  len(self.flown) > cfg['capacity'], dead)
    finally:
      scratch.drop(self.base)

  def start(self, cfg, ctx, seed):
    """A new process; what it knows comes from the checkpoints, if any."""
    with rl.process(seed):
      self.agent = rl.make_agent(cfg, seed)
      self.env = rl.ScriptEnv(cfg['env_seed'] + seed, ctx, cfg['lengths'])
      n = self.agent.reload_latest_checkpoint(
          os.path.join(self.base, 'checkpoints'))
    self.flown = list(self.saved[n]) if n in self.saved else []
    ctx.probe('restart')
    self.compare(cfg, ctx, ['restart'])

  def op_loop(self, cfg, ctx, target, kill):
    saved, before = self.agent.save_checkpoint, list(self.flown)
    # The loop begins by reloading its own newest checkpoint.
    if self.saved:
      before = list(self.saved[max(self.saved)])
    env = self.env
    env.calls.clear()
    env.kill_at = env.ncalls + kill if kill else None

    def save(d, n):
      saved(d, n)
      self.flown = before + self.harvest(cfg, ctx, env.calls)
      self.saved[n] = list(self.flown)
    self.agent.save_checkpoint = save
    try:
      rl.Lib.train_lib.run_training_loop(
          self.base, env, self.agent, target, cfg['max_len'], [],
          episodes_per_iteration=cfg['epi'])
    except core.SimCrash:
      self.crashed = True
      return True
    finally:
      del self.agent.save_checkpoint
      env.kill_at = None
    self.flown = before + self.harvest(cfg, ctx, env.calls)
    ctx.log('loop', target, len(self.flown))
    return False

  def harvest(self, cfg, ctx, calls):
    """Transitions of the episodes in a record of calls on the environment."""
    out, obs = [], None
    for i, c in enumerate(calls):
      if c[0] == 'reset':
        obs = c[2]
        continue
      action, reward, nxt, terminal = int(c[3]), c[5], c[6], bool(c[7])
      last = i + 1 == len(calls) or calls[i + 1][0] == 'reset'
      out.append((obs, action, reward, terminal, last, nxt))
      if last and not terminal:
        ctx.probe('cut_off')
      obs = nxt
    return out

  def op_hand(self, cfg, ctx, length, terminal):
    self.agent.set_mode('train')
    env, agent = self.env, self.agent
    obs = env.obs(90000 + len(ctx.trace), 0)
    a = agent.begin_episode(obs)
    for t in range(length):
      nxt = env.obs(90000 + len(ctx.trace), t + 1)
      r = env.reward(90000 + len(ctx.trace), t + 1)
      last = t + 1 == length
      self.flown.append((obs, int(a), r, last and terminal, last, nxt))
      obs = nxt
      if not last:
        a = agent.step(r, obs)
    agent.end_episode(r, terminal)
    if not terminal:
      ctx.probe('cut_off')
    ctx.log('hand', length, terminal)

  def op_eval_lib(self, cfg, ctx, seeds, max_len):
    env = evalenv.EvalEnv({'env_seed': cfg['env_seed'], 'reactive': True}, ctx)
    self.eval_lib.eval_agent(
        self.agent, env, self.suites.EvaluationSuite(list(range(seeds)),
                                                     max_len))
    self.agent.set_mode('train')
    ctx.probe('evaluation')
    ctx.log('eval_lib', seeds, max_len)

  def op_eval_hand(self, cfg, ctx, length, end, terminal):
    self.agent.set_mode('eval')
    env = self.env
    self.agent.begin_episode(env.obs(80000, 0))
    for t in range(1, length):
      self.agent.step(env.reward(80000, t), env.obs(80000, t))
    if end:
      self.agent.end_episode(0.5, terminal)
    self.agent.set_mode('train')
    ctx.probe('evaluation')
    ctx.log('eval_hand', length, end)

  # -- exploration ---------------------------------------------------------

  def draw(self, cfg):
    self.overrides += 1
    return core.derive('override', cfg['seed'], self.overrides)

  def override(self, cfg, n, shape):
    outer = self

    class Override(rl.Lib.exploration.Exploration):

      def _choose(self, action):
        h = outer.draw(cfg)
        return (h >> 20) % 3 if (h % 1000) / 1000 < cfg['p'] else action

      def begin_episode(self, observation, action):
        return self._choose(action)

      def step(self, reward, observation, action):
        return self._choose(action)
    return Override(n, shape)

  def explorer(self, cfg, n, shape):
    outer = self

    class Explorer(rl.Lib.agent.Agent):

      def begin_episode(self, observation):
        return outer.draw(cfg) % 3

      def step(self, reward, observation):
        return outer.draw(cfg) % 3

      def end_episode(self, reward, terminal=True):
        pass
    return Explorer(n, shape)

  # -- oracle --------------------------------------------------------------

  def compare(self, cfg, ctx, op):
    np = rl.Lib.np
    if self.overrides:
      ctx.probe('overridden')
    memory = self.agent._replay
    capacity, n = cfg['capacity'], len(self.flown)
    count = int(memory.add_count)
    where = f'after {op}: '
    ctx.check(count == n, 'wrong-number', lambda: where +
              f'{count} transitions stored, {n} flown')
    kept = list(range(max(0, n - capacity), n))
    rows = [j % capacity for j in kept]
    store = memory._store
    flown = [self.flown[j] for j in kept]
    want = {'observation': [f[0] for f in flown],
            'action': [f[1] for f in flown],
            'reward': [np.float32(f[2]) for f in flown],
            'terminal': [int(f[3]) for f in flown]}
    for name, values in want.items():
      if not flown:
        break
      got, exp = store[name][rows], np.asarray(values)
      if name == 'observation':
        got = got.reshape(exp.shape)
      bad = [i for i in range(len(rows)) if not np.array_equal(got[i], exp[i])]
      ctx.check(not bad, f'wrong-{name}', lambda: where +
                f'{name} of transition {kept[bad[0]]} of {n} is {got[bad[0]]}, '
                f'flown {exp[bad[0]]}; {len(bad)} of {len(rows)} differ')
    # Every batch that training may draw.
    valid = [j for j in kept if memory.is_valid_transition(j % capacity)]
    ctx.log('memory', n, len(valid))
    ctx.probe('transitions', len(valid))
    if not valid:
      return
    batch = memory.sample_transition_batch(
        len(valid), [j % capacity for j in valid])
    names = [e.name for e in memory.get_transition_elements()]
    b = dict(zip(names, batch))
    for i, j in enumerate(valid):
      obs, action, reward, terminal, last, nxt = self.flown[j]
      ctx.check(terminal or not last, 'joined', lambda: where +
                f'transition {j} ended its episode without being terminal and '
                f'may be drawn with the next episode as its outcome')
      ctx.check(np.array_equal(b['state'][i].ravel(), obs) and
                int(b['action'][i]) == action and
                b['reward'][i] == np.float32(reward) and
                bool(b['terminal'][i]) == terminal, 'wrong-batch', lambda:
                where + f'transition {j} is drawn as {b["action"][i]}, '
                f'{b["reward"][i]}, {b["terminal"][i]} instead of {action}, '
                f'{reward}, {terminal}')
      ctx.check(terminal or np.array_equal(b['next_state'][i].ravel(), nxt),
                'wrong-outcome', lambda: where + f'the outcome of transition '
                f'{j} of {n} is not the observation that followed it')


PROP = T09()
