"""T13: learning happens exactly when configured, from stored experience."""
from sim import core
from sim import evalenv
from sim import rl

LR, EPS, B1, B2 = 1e-3, 2e-5, 0.9, 0.999


class T13(core.Prop):
  id = 'T13'
  title = 'Learning happens exactly when configured, from the flown experience'
  rule = ('seeded histories of training and evaluation episodes of learning '
          'agents with drawn schedules (history before learning, update and '
          'target periods, memory size, logging period, with and without a '
          'summary writer); after every call parameters, target, optimiser '
          'state, step counter, priorities and log entries are compared with '
          'a plain numpy learner fed with the recorded batches or the flown '
          'transitions; non-trivial: a gradient step was made')
  technique = ('seeded interleavings of training and evaluation, each call '
               'checked against an executable reference learner')
  runs = {'quick': 500, 'thorough': 25000}
  real = ['DQNAgent, QuantileAgent, MLPAgent, networks, Dopamine replay '
          'memories and training steps, eval_lib']
  stub = ['scripted environment', 'recording summary writer']
  assumptions = ['single precision rounding: parameters within 3 % of a '
                 'full step']

  def setup(self):
    rl.Lib.load()
    from balloon_learning_environment.eval import eval_lib
    from balloon_learning_environment.eval import suites
    self.eval_lib, self.suites = eval_lib, suites

  def generate(self, rng, tier):
    cfg = {'agent': rng.choice(['dqn', 'quantile', 'quantile', 'mlp']),
           'seed': rng.randrange(2**31), 'env_seed': rng.randrange(2**31),
           'update_period': rng.choice([1, 2, 4, 5]),
           'target_period': rng.choice([1, 3, 10]),
           'min_history': rng.choice([8, 12, 30]),
           'capacity': rng.choice([25, 60, 200]),
           'freq': rng.choice([1, 1, 3, 8]), 'epsilon': 0.0,
           'writer': rng.random() < 0.5, 'duration': 5}
    if rng.random() < 0.15:
      cfg['net'] = rng.choice([[1, 8, 5], [3, 6, 4]])
    ops = []
    for _ in range(rng.randint(2, 9)):
      r = rng.random()
      if r < 0.75:
        n = rng.randint(3, 25)
        ops.append(['train', n, rng.random() < 0.5])
        if cfg['agent'] == 'mlp' and rng.random() < 0.5:
          # Stretches of the episode that are flown in evaluation mode.
          ops[-1].append(sorted({rng.randint(1, n)
                                 for _ in range(rng.randint(1, 4))}))
      elif r < 0.9:
        ops.append(['eval', rng.randint(1, 9), rng.random() < 0.5])
      else:
        ops.append(['eval_lib', rng.randint(1, 2), rng.randint(1, 6)])
    return {'cfg': cfg, 'ops': ops}

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('gradient_step', 0) > 0

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    cfg = dict(plan['cfg'])
    rl.bind(cfg)
    np = rl.Lib.np
    self.batches, self.logged = [], []
    with rl.process(cfg['seed'] % 2**32):
      self.agent = agent = rl.make_agent(cfg, cfg['seed'] % 9973)
      self.env = rl.ScriptEnv(cfg['env_seed'], ctx, [1000])
      if cfg['writer']:
        agent.set_summary_writer(Writer(self.logged))
      if cfg['agent'] != 'mlp':
        memory = agent._replay
        sample = memory.sample_transition_batch

        def recorded(*a, **k):
          out = sample(*a, **k)
          names = [e.name for e in memory.get_transition_elements()]
          self.batches.append({n: np.array(x) for n, x in zip(names, out)})
          return out
        memory.sample_transition_batch = recorded
      self.structure(cfg, ctx)
      self.adam = [0, [], []]
      self.stored = self.episode = 0
      for op in plan['ops']:
        getattr(self, 'op_' + op[0])(cfg, ctx, *op[1:])
        ctx.log(op[0], self.state(cfg)['steps'], self.stored,
                len(self.batches))

  def structure(self, cfg, ctx):
    """The network has the configured layers, units and atoms."""
    layers, units, atoms = cfg.get('net', (2, 8, 5))
    wide = [rl.OBS] + [units] * (layers - 1)
    wide.append(3 * (atoms if cfg['agent'] == 'quantile' else 1))
    want = []
    for a, b in zip(wide, wide[1:]):
      want += [(a, b), (b,)]
    state = self.state(cfg)
    for k in ('params', 'target'):
      got = [x.shape for x in state.get(k, state['params'])]
      ctx.check(got == want, 'wrong-network', lambda: f'the {k} of the network '
                f'of {layers} layers have shapes {got}')

  def op_train(self, cfg, ctx, length, terminal, switches=()):
    agent, env = self.agent, self.env
    agent.set_mode('train')
    self.episode += 1
    e = self.episode
    obs = env.obs(e, 0)
    a = self.call(cfg, ctx, 'begin', None, obs, None)
    for t in range(1, length):
      last = (obs, a)
      obs = env.obs(e, t)
      if sum(s <= t for s in switches) % 2:
        before = self.state(cfg)
        agent.set_mode('eval')
        a = agent.step(env.reward(e, t), obs)
        agent.set_mode('train')
        self.greedy(cfg, ctx, obs, a, 'in evaluation')
        self.unchanged(ctx, before, self.state(cfg), 'evaluation', False)
        ctx.probe('evaluated_midway')
        continue
      a = self.call(cfg, ctx, 'step', env.reward(e, t), obs, last)
    before = self.state(cfg)
    agent.end_episode(env.reward(e, length), terminal)
    self.stored += 1
    self.unchanged(ctx, before, self.state(cfg), 'ending an episode', True)

  def op_eval(self, cfg, ctx, length, end):
    agent, env = self.agent, self.env
    before = self.state(cfg)
    agent.set_mode('eval')
    for t in range(length):
      obs = env.obs(7000 + t, length)
      a = agent.begin_episode(obs) if t == 0 else agent.step(0.25 * t, obs)
      self.greedy(cfg, ctx, obs, a, 'in evaluation')
    if end:
      agent.end_episode(0.7, terminal=length % 2 == 0)
    agent.set_mode('train')
    self.unchanged(ctx, before, self.state(cfg), 'evaluation', False)
    ctx.probe('evaluation')

  def op_eval_lib(self, cfg, ctx, seeds, max_len):
    before = self.state(cfg)
    env = evalenv.EvalEnv({'env_seed': cfg['env_seed'], 'reactive': True}, ctx)
    self.eval_lib.eval_agent(self.agent, env, self.suites.EvaluationSuite(
        list(range(seeds)), max_len))
    self.agent.set_mode('train')
    self.unchanged(ctx, before, self.state(cfg), 'eval_lib', False)
    ctx.probe('evaluation')

  # -- the state of a learner ------------------------------------------------

  def state(self, cfg):
    agent = self.agent
    if cfg['agent'] == 'mlp':
      return {'params': dense(agent.network_params), 'steps': 0,
              'opt': [x.copy() for x in rl.leaves(agent.optimizer_state)]}
    out = {'params': dense(agent.online_params),
           'target': dense(agent.target_network_params),
           'opt': [x.copy() for x in rl.leaves(agent.optimizer_state)],
           'steps': int(agent.training_steps)}
    out['stored'] = int(agent._replay.add_count)
    if cfg['agent'] == 'quantile':
      out['priorities'] = [rl.Lib.np.array(agent._replay.sum_tree.nodes[-1])]
    return out

  def unchanged(self, ctx, a, b, what, storing):
    for k in a:
      if storing and k in ('stored', 'priorities'):
        continue
      same = rl.same_arrays(a[k], b[k]) if isinstance(a[k], list) \
          else a[k] == b[k]
      ctx.check(same, 'learned-at-the-wrong-time', f'{what} changed {k}')
    ctx.check(not self.logged, 'logged-at-the-wrong-time',
              lambda: f'{what} logged {self.logged[:2]}')

  # -- one call ------------------------------------------------------------

  def call(self, cfg, ctx, kind, reward, obs, last):
    agent = self.agent
    before = self.state(cfg)
    batches = len(self.batches)
    a = agent.begin_episode(obs) if kind == 'begin' else agent.step(reward, obs)
    after = self.state(cfg)
    if kind == 'step':
      self.stored += 1
    if cfg['agent'] == 'mlp':
      # The first decision of an episode follows no transition.
      self.greedy(cfg, ctx, obs, a, 'in training', before['params'])
      if kind == 'begin':
        self.unchanged(ctx, before, after, 'beginning an episode', False)
      else:
        self.sarsa(cfg, ctx, before, after, reward, obs, last, int(a))
      return a
    s = before['steps']
    what = f'{kind} at training step {s} with {self.stored} transitions'
    ctx.check(after['stored'] == self.stored, 'not-stored', f'{what}: '
              f'{after["stored"]} are stored')
    ctx.check(after['steps'] == s + 1, 'wrong-step', f'{what}: the counter '
              f'goes to {after["steps"]}')
    on = self.stored > cfg['min_history']
    learn = on and s % cfg['update_period'] == 0
    sync = on and s % cfg['target_period'] == 0
    new = self.batches[batches:]
    ctx.check(len(new) == (1 if learn else 0), 'wrong-schedule', f'{what}: '
              f'{len(new)} batches were drawn, due {int(learn)}')
    if learn:
      self.gradient(cfg, ctx, what, before, after, new[0])
    else:
      for k in ('params', 'opt'):
        ctx.check(rl.same_arrays(before[k], after[k]), 'wrong-schedule',
                  f'{what}: {k} changed')
      ctx.check(not self.logged, 'logged-at-the-wrong-time', lambda:
                f'{what}: logged {self.logged[:2]}')
    source = after['params'] if sync else before['target']
    ctx.check(rl.same_arrays(after['target'], source), 'wrong-target', f'{what}'
              f': the target network is not ' +
              ('the online one' if sync else 'what it was'))
    if sync:
      ctx.probe('synchronised')
    self.greedy(cfg, ctx, obs, a, what)
    self.logged.clear()
    ctx.state(cfg['agent'], learn, sync, on, kind)
    return a

  def greedy(self, cfg, ctx, obs, a, what, params=None):
    np = rl.Lib.np
    if params is None:
      params = self.state(cfg)['params']
    q = values(cfg, params, obs[None])[0]
    if cfg['agent'] == 'quantile':
      q = q.reshape(3, -1).mean(1)
    ctx.check(q[int(a)] >= np.max(q) - 1e-4, 'not-greedy', lambda: f'{what}: '
              f'action {int(a)} of values {q}')

  # -- reference learners ----------------------------------------------------

  def gradient(self, cfg, ctx, what, before, after, batch):
    np = rl.Lib.np
    ctx.probe('gradient_step')
    s = batch['state'].reshape(8, -1).astype(float)
    n = batch['next_state'].reshape(8, -1).astype(float)
    act = batch['action'].astype(int)
    live = 1.0 - batch['terminal'].astype(float)
    r = batch['reward'].astype(float)
    out, cache = forward(before['params'], s)
    nxt = values(cfg, before['target'], n)
    d = np.zeros_like(out)
    rows = np.arange(8)
    if cfg['agent'] == 'dqn':
      target = r + 0.993 * live * nxt.max(1)
      err = out[rows, act] - target
      losses = err**2
      d[rows, act] = 2 * err / 8
      logged = losses.mean()
    else:
      z, zn = out.reshape(8, 3, -1), nxt.reshape(8, 3, -1)
      atoms = z.shape[2]
      best = zn.mean(2).argmax(1)
      target = r[:, None] + 0.993 * live[:, None] * zn[rows, best]
      chosen = z[rows, act]
      u = target[:, None, :] - chosen[:, :, None]
      huber = np.where(np.abs(u) <= 1, 0.5 * u * u, np.abs(u) - 0.5)
      slope = np.where(np.abs(u) <= 1, u, np.sign(u))
      tau = (np.arange(atoms) + 0.5) / atoms
      w = np.abs(tau[None, :, None] - (u < 0))
      losses = (w * huber).mean(2).sum(1)
      g = -(w * slope).mean(2) / 8
      dz = d.reshape(8, 3, -1)
      dz[rows, act] = g
      probs = batch['sampling_probabilities'].astype(float)
      weights = 1 / np.sqrt(probs + 1e-10)
      logged = (losses * weights / weights.max()).mean()
      self.priorities(ctx, what, before, after, batch, losses)
    grads = backward(before['params'], cache, d)
    step = self.adam_step(grads)
    worst = max(float(np.max(np.abs((b.astype(float) - a) - x)))
                for a, b, x in zip(before['params'], after['params'], step))
    ctx.check(worst < 0.03 * LR, 'wrong-update', lambda: f'{what}: the '
              f'parameters differ from the reference by {worst / LR:.3g} of a '
              f'step')
    freq, t = cfg['freq'], before['steps']
    due = cfg['writer'] and t > 0 and t % freq == 0
    ctx.check(len(self.logged) == int(due), 'logged-at-the-wrong-time', lambda:
              f'{what}: logged {self.logged}, due {due}')
    if due:
      _, value, step = self.logged[0]
      ctx.check(step == t and abs(value - logged) <= 1e-4 * max(1, logged),
                'wrong-log', f'{what}: logged {value} at {step}, the loss is '
                f'{logged}')
      ctx.probe('logged')

  def priorities(self, ctx, what, before, after, batch, losses):
    """The sampled transitions have the priority of their loss, no other."""
    np = rl.Lib.np
    a, b = before['priorities'][0], after['priorities'][0]
    idx = batch['indices']
    for i, loss in zip(idx, losses):
      want = np.sqrt(loss + 1e-10)
      ctx.check(abs(b[i] - want) <= 1e-4 * max(1.0, want), 'wrong-priority',
                lambda: f'{what}: priority {b[i]} of transition {i} with loss '
                f'{loss}')
    changed = set(np.flatnonzero(a != b)) - set(int(i) for i in idx)
    ctx.check(len(changed) <= 1, 'wrong-priority', lambda: f'{what}: priorities '
              f'of {sorted(changed)} changed, sampled were {sorted(idx)}')

  def adam_step(self, grads):
    np = rl.Lib.np
    self.adam[0] += 1
    k = self.adam[0]
    if not self.adam[1]:
      self.adam[1] = [np.zeros_like(g) for g in grads]
      self.adam[2] = [np.zeros_like(g) for g in grads]
    out = []
    for i, g in enumerate(grads):
      m = self.adam[1][i] = B1 * self.adam[1][i] + (1 - B1) * g
      v = self.adam[2][i] = B2 * self.adam[2][i] + (1 - B2) * g * g
      out.append(-LR * (m / (1 - B1**k)) / (np.sqrt(v / (1 - B2**k)) + EPS))
    return out

  def sarsa(self, cfg, ctx, before, after, reward, obs, last, action):
    """One step down the squared error of two consecutive decisions."""
    np = rl.Lib.np
    ctx.probe('gradient_step')
    s, a = last
    p = before['params']
    q, c1 = forward(p, s[None].astype(float))
    qn, c2 = forward(p, obs[None].astype(float))
    err = q[0, int(a)] - (reward + 0.9 * qn[0, action])
    d1, d2 = np.zeros_like(q), np.zeros_like(qn)
    d1[0, int(a)], d2[0, action] = 2 * err, -2 * 0.9 * err
    grads = [x + y for x, y in zip(backward(p, c1, d1), backward(p, c2, d2))]
    size = max(float(np.abs(g).max()) for g in grads)
    worst = max(float(np.max(np.abs((y.astype(float) - x) + 1e-3 * g)))
                for x, y, g in zip(p, after['params'], grads))
    ctx.check(worst <= 1e-3 * size * 1e-3 + 3e-7, 'wrong-update', lambda: f'the '
              f'parameters differ from the reference by {worst}, the step is '
              f'{1e-3 * size}')
    ctx.state('mlp', err > 0, int(a), action)


class Writer:

  def __init__(self, out):
    self.out = out

  def scalar(self, name, value, step):
    self.out.append((name, float(value), int(step)))

  def flush(self):
    pass


def dense(params):
  """[kernel, bias, kernel, bias, ...] in the order of the layers, copied."""
  np = rl.Lib.np
  p = params['params']
  out = []
  for name in sorted(p, key=lambda n: int(n.split('_')[1])):
    out += [np.array(p[name]['kernel']), np.array(p[name]['bias'])]
  return out


def forward(params, x):
  np = rl.Lib.np
  cache, n = [], len(params) // 2
  for i in range(n):
    cache.append(x)
    x = x @ params[2 * i].astype(float) + params[2 * i + 1]
    if i + 1 < n:
      x = np.maximum(x, 0.0)
  return x, cache


def values(cfg, params, x):
  return forward(params, x.astype(float))[0]


def backward(params, cache, d):
  n = len(params) // 2
  out = [None] * (2 * n)
  for i in reversed(range(n)):
    out[2 * i] = cache[i].T @ d
    out[2 * i + 1] = d.sum(0)
    if i:
      d = (d @ params[2 * i].astype(float).T) * (cache[i] > 0)
  return out


PROP = T13()
