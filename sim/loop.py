"""The real training loop around recording stubs: one shared list of events."""
from sim import core
from sim import rl


def make_stub(ctx, n_actions, seed, events, durable):
  """An agent that draws its actions from the seed and records its calls.

  `durable` is its simulated checkpoint store, a dict that outlives the process.
  """
  base = rl.Lib.agent

  class Stub(base.Agent):

    def __init__(self):
      self.kill_at = None
      self.calls = 0
      self.drawn = 0
      super().__init__(n_actions, (rl.OBS,))

    def _tick(self, *event):
      self.calls += 1
      if self.kill_at is not None and self.calls >= self.kill_at:
        ctx.fault('crash_in_agent')
        raise core.SimCrash('killed in the agent')
      events.append(event)

    def _action(self):
      self.drawn += 1
      return core.derive('act', seed, self.drawn) % n_actions

    def begin_episode(self, observation):
      self._tick('begin', observation)
      a = self._action()
      events.append(('action', a))
      return a

    def step(self, reward, observation):
      self._tick('step', reward, observation)
      a = self._action()
      events.append(('action', a))
      return a

    def end_episode(self, reward, terminal=True):
      self._tick('end', reward, terminal)

    def set_mode(self, mode):
      events.append(('mode', base.AgentMode(mode).value))

    def set_summary_writer(self, summary_writer):
      events.append(('writer', summary_writer))
      super().set_summary_writer(summary_writer)

    def save_checkpoint(self, checkpoint_dir, iteration_number):
      self._tick('save', checkpoint_dir, iteration_number)
      durable[iteration_number] = self.drawn
      self._tick('saved', iteration_number)

    def load_checkpoint(self, checkpoint_dir, iteration_number):
      raise core.HarnessError('not expected to be called')

    def reload_latest_checkpoint(self, checkpoint_dir):
      n = max(durable) if durable else -1
      self._tick('reload', checkpoint_dir, n)
      return n

  return Stub()


class LoopEnv(rl.ScriptEnv):
  """The scripted environment, recording into the shared list of events."""

  def __init__(self, seed, ctx, lengths, n_actions, events, start_episode=0):
    super().__init__(seed, ctx, lengths, n_actions, start_episode)
    self.events = events

  def reset(self, seed=None):
    o = super().reset(seed)
    self.events.append(('env_reset', self.episode, o))
    return o

  def step(self, action):
    before = self.terminal
    o, r, t, info = super().step(action)
    self.events.append(('env_step', action, o, r, t, before))
    return o, r, t, info

  def render(self, mode='human'):
    self.events.append(('render', self.episode, self.t))


def make_recorder(events, tag=0):
  """A collector that records what it is told."""
  import dataclasses
  from balloon_learning_environment.metrics import collector

  class Recorder(collector.Collector):

    def __init__(self, base_dir, num_actions, current_episode):
      super().__init__(base_dir, num_actions, current_episode)
      events.append(('c_new', tag, base_dir, num_actions, current_episode))

    def get_name(self):
      return f'recorder{tag}'

    def pre_training(self):
      events.append(('c_pre', tag))

    def begin_episode(self):
      events.append(('c_begin', tag))

    def step(self, statistics):
      events.append(('c_step', tag, dataclasses.astuple(statistics)))

    def end_episode(self, statistics):
      events.append(('c_end', tag, dataclasses.astuple(statistics)))

    def end_training(self):
      events.append(('c_done', tag))

  return Recorder
