"""A scripted evaluation environment, and what evaluating on it should report."""
import datetime as dt
import types

from sim import core
from sim import rl

STEP = 180


def unit(*key):
  return (core.derive(*key) % 2**20) / 2.0**20


class EvalEnv:
  """Flights are a function of their seed and the actions taken."""

  def __init__(self, cfg, ctx, events=None):
    from balloon_learning_environment.utils import units
    self.units = units
    self.cfg, self.ctx = cfg, ctx
    self.radius = units.Distance(km=50.0)
    self.action_space = Space(cfg.get('n_actions', 3))
    self.observation_space = Shape((rl.OBS,))
    self.events = [] if events is None else events
    self.seed_ = None
    self.t = 0
    self.hash = 0
    self.kill_at = self.error_at = None
    self.ncalls = 0
    self.terminal = False

  def tick(self):
    self.ncalls += 1
    if self.error_at is not None and self.ncalls >= self.error_at:
      raise EvalError('the environment failed')
    if self.kill_at is not None and self.ncalls >= self.kill_at:
      self.ctx.fault('crash_in_env')
      raise core.SimCrash('killed in the environment')

  def seed(self, seed=None):
    self.tick()
    self.seed_ = seed
    self.events.append(('seed', seed))
    return [seed]

  def reset(self, seed=None):
    self.tick()
    if seed is not None:
      self.seed_ = seed
      self.events.append(('seed', seed))
    self.t, self.hash, self.terminal = 0, 0, False
    o = self.observation()
    self.events.append(('reset', o))
    return o

  def observation(self):
    np = rl.Lib.np
    h = core.derive('o', self.cfg['env_seed'], self.seed_, self.t, self.hash)
    return np.asarray([((h >> (10 * i)) & 1023) / 512.0 - 1.0
                       for i in range(rl.OBS)], dtype=np.float32)

  def step(self, action):
    self.tick()
    before = self.terminal
    a = int(action)
    self.hash = core.derive(self.hash, a) % 2**30 if self.cfg['reactive'] else 0
    self.t += 1
    s = sample(self.cfg, self.seed_, self.t, self.hash)
    self.state = s
    self.terminal = s['end'] is not None
    info = {'time_elapsed': dt.timedelta(seconds=STEP * self.t)}
    for k in ('out_of_power', 'envelope_burst', 'zeropressure'):
      info[k] = s['end'] == k
    o = self.observation()
    self.events.append(('step', a, s['reward'], o, self.terminal, before))
    return o, s['reward'], self.terminal, info

  def get_simulator_state(self):
    s, u = self.state, self.units
    return types.SimpleNamespace(balloon_state=types.SimpleNamespace(
        x=u.Distance(km=s['x']), y=u.Distance(km=s['y']),
        pressure=s['pressure'], superpressure=s['superpressure'],
        time_elapsed=dt.timedelta(seconds=STEP * self.t),
        battery_soc=s['power']))

  def render(self, mode='human'):
    self.events.append(('render',))

  def close(self):
    pass


class EvalError(RuntimeError):
  pass


class Space:
  def __init__(self, n):
    self.n = n


class Shape:
  def __init__(self, shape):
    self.shape = shape


def sample(cfg, seed, t, h):
  """The state of the flight after its t-th step."""
  key = (cfg['env_seed'], seed, t, h)
  near = unit('near', *key)
  # Sometimes exactly on the edge of the radius.
  x = 50.0 if near < 0.1 else 100.0 * unit('x', *key) - 50.0
  y = 0.0 if near < 0.1 else 100.0 * unit('y', *key) - 50.0
  end = None
  p = cfg.get('end', 0.2)
  if unit('end', *key) < p:
    end = ('out_of_power', 'envelope_burst', 'zeropressure')[
        core.derive('why', *key) % 3]
  return {'x': x, 'y': y, 'end': end,
          'reward': unit('r', *key) * cfg.get('scale', 1.0),
          'pressure': 5000.0 + 9000.0 * unit('p', *key),
          'superpressure': 500.0 * unit('s', *key), 'power': unit('b', *key)}


def expected(cfg, seed, max_len, actions=None):
  """The result of one flight as plain data; actions for reactive flights."""
  h, path, total, inside, s = 0, [], 0.0, 0, None
  for t in range(1, max_len + 1):
    if cfg['reactive']:
      h = core.derive(h, int(actions[t - 1])) % 2**30
    s = sample(cfg, seed, t, h)
    total += s['reward']
    inside += (s['x'] ** 2 + s['y'] ** 2) ** 0.5 <= 50.0
    path.append({'x': s['x'], 'y': s['y'], 'pressure': s['pressure'],
                 'superpressure': s['superpressure'],
                 'elapsed_seconds': float(STEP * t), 'power': s['power']})
    if s['end']:
      break
  return {'seed': seed, 'cumulative_reward': total,
          'time_within_radius': inside / t,
          'out_of_power': s['end'] == 'out_of_power',
          'envelope_burst': s['end'] == 'envelope_burst',
          'zeropressure': s['end'] == 'zeropressure',
          'final_timestep': t, 'flight_path': path}


def difference(got, want):
  """None if a reported result (plain data) is the expected one."""
  if not isinstance(got, dict) or set(got) != set(want):
    return f'fields {sorted(got) if isinstance(got, dict) else got}'
  for k in want:
    if k == 'flight_path':
      if len(got[k]) != len(want[k]):
        return f'flight path of {len(got[k])} points instead of {len(want[k])}'
      for i, (a, b) in enumerate(zip(got[k], want[k])):
        if set(a) != set(b) or any(not close(a[j], b[j]) for j in b):
          return f'point {i} of the flight path is {a} instead of {b}'
    elif isinstance(want[k], bool):
      if not isinstance(got[k], (bool, int)) or bool(got[k]) != want[k]:
        return f'{k} is {got[k]} instead of {want[k]}'
    elif not close(got[k], want[k]):
      return f'{k} is {got[k]} instead of {want[k]}'
  return None


def close(a, b):
  return abs(a - b) <= 1e-6 * max(1.0, abs(b))
