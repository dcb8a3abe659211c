"""Training, evaluation and checkpoints under the simulator: real agents and
loops, scripted environments, simulated processes that can be killed."""
import contextlib
import gzip
import io
import os
import pickle
import re

from sim import clock
from sim import core

OBS = 6          # size of scripted observations


class Lib:
  loaded = False

  @classmethod
  def load(cls, agents=('dqn', 'quantile')):
    if cls.loaded:
      return
    import gin
    import jax
    import numpy as np
    import tensorflow as tf
    from balloon_learning_environment import train_lib
    from balloon_learning_environment.agents import agent
    from balloon_learning_environment.agents import dopamine_utils
    from balloon_learning_environment.agents import dqn_agent
    from balloon_learning_environment.agents import exploration
    from balloon_learning_environment.agents import marco_polo_exploration
    from balloon_learning_environment.agents import mlp_agent
    from balloon_learning_environment.agents import networks
    from balloon_learning_environment.agents import quantile_agent
    from balloon_learning_environment.metrics import statistics_instance
    from dopamine.jax.agents.dqn import dqn_agent as ddqn
    from dopamine.jax.agents.quantile import quantile_agent as dquant
    from dopamine.replay_memory import circular_replay_buffer
    from dopamine.replay_memory import prioritized_replay_buffer
    cls.gin, cls.jax, cls.np, cls.tf = gin, jax, np, tf
    cls.train_lib, cls.agent, cls.networks = train_lib, agent, networks
    cls.dopamine_utils = dopamine_utils
    cls.dqn, cls.quantile, cls.mlp = dqn_agent, quantile_agent, mlp_agent
    cls.exploration, cls.marco = exploration, marco_polo_exploration
    cls.stats = statistics_instance
    cls.ddqn, cls.dquant = ddqn, dquant
    cls.crb, cls.prb = circular_replay_buffer, prioritized_replay_buffer
    # The optimiser is a static argument of the jitted training step; building
    # the same one for each agent would only compile the same function again.
    real = ddqn.create_optimizer
    memo = {}

    def create_optimizer(*a, **k):
      key = (a, tuple(sorted(k.items())))
      if key not in memo:
        memo[key] = real(*a, **k)
      return memo[key]
    ddqn.create_optimizer = create_optimizer
    dquant.dqn_agent.create_optimizer = create_optimizer
    # Uninitialised memory is a source of nondeterminism: it ends up in the
    # saved files. Unused rows of the replay memory get a fixed filling.
    storage = circular_replay_buffer.OutOfGraphReplayBuffer._create_storage

    def create_storage(self):
      storage(self)
      for array in self._store.values():
        array.fill(77)
    circular_replay_buffer.OutOfGraphReplayBuffer._create_storage = create_storage
    cls.loaded = True


def bind(cfg):
  """Gin configuration of the learning agents, as in agents/configs but small."""
  gin = Lib.gin
  gin.clear_config()
  b = gin.bind_parameter
  layers, units, atoms = cfg.get('net', (2, 8, 5))
  b('MLPNetwork.num_layers', layers)
  b('MLPNetwork.hidden_units', units)
  b('agents.networks.QuantileNetwork.num_layers', layers)
  b('agents.networks.QuantileNetwork.hidden_units', units)
  d = cfg.get('duration', 5)
  b('balloon_learning_environment.agents.dqn_agent.DQNAgent.network', Lib.networks.MLPNetwork)
  b('balloon_learning_environment.agents.dqn_agent.DQNAgent.checkpoint_duration', d)
  b('balloon_learning_environment.agents.quantile_agent.QuantileAgent.network', Lib.networks.QuantileNetwork)
  b('balloon_learning_environment.agents.quantile_agent.QuantileAgent.checkpoint_duration', d)
  b('balloon_learning_environment.agents.quantile_agent.QuantileAgent.reload_perciatelli', False)
  b('balloon_learning_environment.agents.quantile_agent.QuantileAgent.exploration_wrapper_constructor',
    cfg.get('_exploration') or Lib.exploration.Exploration)
  for j in ('JaxDQNAgent', 'JaxQuantileAgent'):
    b(f'{j}.gamma', 0.993)
    b(f'{j}.update_horizon', cfg.get('horizon', 1))
    b(f'{j}.min_replay_history', cfg.get('min_history', 12))
    b(f'{j}.update_period', cfg.get('update_period', 4))
    b(f'{j}.target_update_period', cfg.get('target_period', 10))
    b(f'{j}.epsilon_fn', Lib.ddqn.identity_epsilon)
    b(f'{j}.epsilon_train', cfg.get('epsilon', 0.2))
    b(f'{j}.epsilon_eval', 0.0)
    b(f'{j}.optimizer', 'adam')
    b(f'{j}.summary_writing_frequency', cfg.get('freq', 1))
    b(f'{j}.allow_partial_reload', cfg.get('partial', True))
  b('JaxDQNAgent.loss_type', 'mse')
  b('JaxQuantileAgent.num_atoms', atoms)
  b('dqn_agent.create_optimizer.learning_rate', 1e-3)
  b('dqn_agent.create_optimizer.eps', 2e-5)
  for r in ('OutOfGraphReplayBuffer', 'OutOfGraphPrioritizedReplayBuffer'):
    b(f'{r}.replay_capacity', cfg.get('capacity', 400))
    b(f'{r}.batch_size', 8)


def make_agent(cfg, seed, nobs=OBS, nact=3):
  if cfg['agent'] == 'dqn':
    return Lib.dqn.DQNAgent(nact, observation_shape=(nobs,), seed=seed)
  if cfg['agent'] == 'quantile':
    return Lib.quantile.QuantileAgent(nact, observation_shape=(nobs,),
                                      seed=seed)
  if cfg['agent'] == 'mlp':
    return Lib.mlp.MLPAgent(nact, (nobs,), seed=seed)
  raise core.HarnessError(cfg['agent'])


# -- comparing learners -------------------------------------------------------


def leaves(tree):
  np = Lib.np
  return [np.asarray(x) for x in Lib.jax.tree_util.tree_leaves(tree)]


def same_arrays(a, b):
  np = Lib.np
  if len(a) != len(b):
    return False
  return all(x.dtype == y.dtype and x.shape == y.shape and
             x.tobytes() == y.tobytes() for x, y in zip(a, b))


def learner(agent):
  """What an agent has learned and where it stands, copied."""
  return {
      'params': [x.copy() for x in leaves(agent.online_params)],
      'target': [x.copy() for x in leaves(agent.target_network_params)],
      'optimizer': [x.copy() for x in leaves(agent.optimizer_state)],
      'steps': int(agent.training_steps),
  }


def replay(agent):
  """The stored transitions of an agent, copied (only the valid rows)."""
  np = Lib.np
  r = agent._replay
  n = min(int(r.add_count), r._replay_capacity)
  out = {k: v[:n].copy() for k, v in r._store.items()}
  out['add_count'] = np.asarray(int(r.add_count))
  out['ends'] = np.asarray(sorted(int(x) for x in r.episode_end_indices))
  tree = getattr(r, 'sum_tree', None)
  if tree is not None:
    out['tree'] = np.concatenate([np.asarray(x, dtype=float) for x in tree.nodes])
    out['max_priority'] = np.asarray(float(tree.max_recorded_priority))
  return out


def diff_learner(a, b):
  for k in ('params', 'target', 'optimizer'):
    if not same_arrays(a[k], b[k]):
      return k
  return None if a['steps'] == b['steps'] else 'training steps'


def diff_replay(a, b):
  if set(a) != set(b):
    return f'fields {sorted(set(a) ^ set(b))}'
  for k in sorted(a):
    if not same_arrays([a[k]], [b[k]]):
      return k
  return None


# -- checkpoints on disk ------------------------------------------------------

_NAME = re.compile(r'checkpoint_(\d{5,})\.pkl')


def iterations(d):
  """Iterations of the checkpoint files in the directory."""
  if not os.path.isdir(d):
    return []
  out = []
  for f in os.listdir(d):
    m = _NAME.fullmatch(f)
    if m and m.group(1) == f'{int(m.group(1)):05d}':
      out.append(int(m.group(1)))
  return sorted(out)


def checkpoint_file(d, n):
  return os.path.join(d, f'checkpoint_{n:05d}.pkl')


def replay_files(d, n):
  return sorted(f for f in os.listdir(d) if f.endswith(f'_ckpt.{n}.gz'))


def replay_names(agent):
  """Names of the files one saved replay memory consists of."""
  return sorted(k for k in agent._replay._return_checkpointable_elements()
                if k != 'episode_end_indices')


def judge(d, n, names):
  """(pickle is whole, replay is 'whole', 'old', 'missing', 'torn' or 'grey').

  'grey': all data are there, only the check sum at the end of a file is not.
  """
  try:
    with open(checkpoint_file(d, n), 'rb') as f:
      b = pickle.loads(f.read())
    ok = isinstance(b, dict) and {'online_params', 'target_params',
                                  'training_steps', 'state'} <= set(b)
  except Exception:  # noqa
    ok = False
  state = 'whole'
  present = set(replay_files(d, n))
  for a in names:
    if f'{a}_ckpt.{n}.gz' not in present:
      return ok, 'missing'
  for f in sorted(present):
    path = os.path.join(d, f)
    if parses(path, True):
      continue
    if not parses(path, False):
      return ok, 'torn'
    state = 'grey'
  if state == 'whole' and f'episode_end_indices_ckpt.{n}.gz' not in present:
    state = 'old'       # Dopamine takes this for an older format
  return ok, state


def parses(path, strict):
  for load in (lambda f: Lib.np.load(f, allow_pickle=False), pickle.load):
    try:
      with gzip.open(path, 'rb') as g:
        load(io.BytesIO(g.read()) if strict else g)
      return True
    except Exception:  # noqa
      pass
  return False


def usable(d, n, names, partial):
  """True, False, or None where a loader may decide either way."""
  ok, rep = judge(d, n, names)
  if ok and rep == 'grey':
    return None
  return ok and (rep in ('whole', 'old') or (rep == 'missing' and partial))


# -- scripted environment -----------------------------------------------------


class Space:
  def __init__(self, n):
    self.n = n


class ScriptEnv:
  """Deterministic environment: unique observations, rewards and endings.

  Records every call; may kill the process at a given call.
  """

  def __init__(self, seed, ctx, lengths, n_actions=3, start_episode=0):
    self.action_space = Space(n_actions)
    self.seed_, self.ctx = seed, ctx
    self.lengths = lengths            # episode k ends terminally at this step
    self.episode = start_episode - 1
    self.calls = []
    self.kill_at = None               # number of the call that kills
    self.ncalls = 0
    self.terminal = False
    self.t = 0
    self.renders = []

  def _tick(self):
    self.ncalls += 1
    if self.kill_at is not None and self.ncalls >= self.kill_at:
      self.ctx.fault('crash_in_env')
      raise core.SimCrash('killed in the environment')

  def obs(self, e, t):
    np = Lib.np
    h = core.derive('obs', self.seed_, e, t)
    v = [((h >> (10 * i)) & 1023) / 1024.0 for i in range(OBS - 2)]
    return np.asarray([e / 64.0, t / 1024.0] + v, dtype=np.float32)

  def reward(self, e, t):
    return (core.derive('rew', self.seed_, e, t) % 2**20) / 2.0**20

  def length(self, e):
    return self.lengths[e % len(self.lengths)]

  def reset(self, seed=None):
    self._tick()
    self.episode += 1
    self.t = 0
    self.terminal = False
    o = self.obs(self.episode, 0)
    self.calls.append(('reset', self.episode, o))
    return o

  def step(self, action):
    self._tick()
    self.calls.append(['step', self.episode, self.t, action, self.terminal])
    self.t += 1
    self.terminal = self.t == self.length(self.episode)
    r = self.reward(self.episode, self.t)
    o = self.obs(self.episode, self.t)
    self.calls[-1] += [r, o, self.terminal]
    return o, r, self.terminal, {}

  def render(self, mode='human'):
    self.renders.append((self.episode, self.t))
    return None


@contextlib.contextmanager
def process(np_seed):
  """A simulated process: its own global random state."""
  np = Lib.np
  import random
  state, pstate = np.random.get_state(), random.getstate()
  np.random.seed(np_seed % 2**32)
  random.seed(np_seed)
  try:
    yield
  finally:
    np.random.set_state(state)
    random.setstate(pstate)


def is_io_error(e):
  return isinstance(e, (OSError, Lib.tf.errors.OpError))
