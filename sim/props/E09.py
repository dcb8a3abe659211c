"""E09: the reward is the documented station-keeping reward."""
import copy
import functools
import math

from sim import flight
from sim.ref import physics


class E09(flight.FlightProp):
  id = 'E09'
  title = 'The reward is the documented station-keeping reward'
  rule = ('seeded flights with disturbances and several reward settings; every '
          'reward is compared with the formula evaluated on the state, and '
          'compared across distances on copies of the state; non-trivial: more '
          'than 20 trace events and 3 abstract states')
  technique = ('seeded flights with injected disturbances against a reference '
               'reward')
  runs = {'quick': 128, 'thorough': 5000}
  levels = ('env',)
  kinds = ('battery_full', 'battery_full', 'battery', 'clock', 'clock',
           'teleport', 'edge', 'edge', 'infrared', 'superpressure', 'pressure',
           'air_fill', 'safety_off')
  fault_rate = 0.9
  steps_per_op = 8
  n_steps = {'quick': 220, 'thorough': 400}

  def directed(self):
    # A day and a half with a full battery: all four combinations of sun and
    # charge at every compressor power.
    cfg = {'level': 'env', 'field': 'simple', 'seed': 5, 'speed': 3.0,
           'power_safety': False, 'features': 'stub',
           'reward': {}, 'params': {}}
    ops = []
    for k in range(48):
      ops += [['fault', 'clock', 1800],
              ['fault', 'battery', [1.0, 0.9895, 0.9905, 0.9][k % 4]],
              ['fault', 'superpressure', 100.0 + 45.0 * k],
              ['fault', 'teleport', 1e4 * k, 1000.0], ['act', 'dsu'[k % 3] + 'd']]
    return [{'cfg': cfg, 'ops': ops}]

  def tune_cfg(self, rng, cfg):
    cfg['reward'] = {}
    if rng.random() < 0.4:
      cfg['reward'] = {
          'station_keeping_radius_km': rng.choice([25.0, 50.0, 75.0, 0.0]),
          'reward_dropoff': rng.choice([0.4, 0.2, 1.0]),
          'reward_halflife': rng.choice([100.0, 30.0, 400.0])}

  def draw_fault(self, rng):
    kind = rng.choice(self.kinds)
    if kind == 'battery_full':
      return ['fault', 'battery', rng.choice([1.0, 0.9999, 0.992, 0.9901,
                                              0.9899, 0.985])]
    if kind == 'edge':
      r = rng.choice([25e3, 50e3, 75e3]) + rng.choice(
          [-1500, -100, -1, 1, 100, 1500])
      th = rng.uniform(0, 2 * math.pi)
      return ['fault', 'teleport', r * math.cos(th), r * math.sin(th)]
    return flight.draw_fault(rng, [kind])

  def make_world(self, cfg, ctx):
    from balloon_learning_environment.env import balloon_env
    self.fn = functools.partial(balloon_env.perciatelli_reward_function,
                                **cfg['reward'])
    return flight.World(cfg, ctx, reward=self.fn if cfg['reward'] else None)

  def ref(self, n, cfg, d=None):
    """(reward, whether a threshold is too close to call)."""
    r = cfg['reward']
    radius = r.get('station_keeping_radius_km', 50.0)
    d = math.hypot(n['x'], n['y']) / 1000.0 if d is None else d
    tie = abs(d - radius) < 1e-9
    val = 1.0 if d <= radius else r.get('reward_dropoff', 0.4) * 2.0**(
        -(d - radius) / r.get('reward_halflife', 100.0))
    if n['last'] == 'DOWN':
      excess, t = physics.excess_energy(n)
      tie = tie or t < 1e-7
      if not excess:
        val *= 0.95 - 0.3 * min(max((n['acs_watts'] - 100) / 200, 0.0), 1.0)
        self.cls = 'penalised'
      else:
        self.cls = 'excess_energy'
    else:
      self.cls = 'no_descent'
    return val, tie

  def after(self, w, ctx, letter, pre, _):
    n = flight.numbers(w.state)
    want, tie = self.ref(n, w.cfg)
    if tie:
      ctx.probe('tie')
      return
    ctx.probe(self.cls)
    ctx.check(isinstance(w.reward, float) or hasattr(w.reward, 'dtype'),
              'reward-type', repr(w.reward))
    ctx.check(flight.close(float(w.reward), want, 1e-8, 1e-10),
              'reward:' + self.cls,
              lambda: f'{w.reward!r} instead of {want!r} (commanded '
              f'{flight.LETTER[letter]}, {math.hypot(n["x"], n["y"])} m, '
              f'{n["battery_wh"]} Wh, {n["acs_watts"]} W)')
    lo, hi = w.env.reward_range
    ctx.check(lo <= w.reward <= hi, 'reward-range', repr(w.reward))
    if w.steps % 7 == 0:
      self.distances(w, ctx, n)

  def distances(self, w, ctx, n):
    """The same vehicle at other distances; and the state is not touched."""
    u = flight.Lib.units
    s = w.arena.get_simulator_state()
    again = self.fn(s)
    ctx.check(again == w.reward, 'depends-on-more-than-state', repr(again))
    th = math.atan2(n['y'], n['x'])
    got = []
    for km in (0.0, 10.0, 24.99, 25.01, 49.99, 50.01, 74.99, 75.01, 120.0, 300.0,
               900.0):
      c = copy.copy(s)
      c.balloon_state = copy.copy(s.balloon_state)
      c.balloon_state.x = u.Distance(km=km * math.cos(th))
      c.balloon_state.y = u.Distance(km=km * math.sin(th))
      m = flight.numbers(c.balloon_state)
      e, tie = physics.excess_energy(m)
      if tie < 1e-7:
        continue
      want, _ = self.ref(m, w.cfg)
      r = self.fn(c)
      ctx.check(flight.close(r, want, 1e-8, 1e-10), 'reward-at-distance',
                f'{r} instead of {want} at {km} km')
      got.append((e or m['last'] != 'DOWN', r))
    for flag in (True, False):
      rs = [r for e, r in got if e == flag]
      ctx.check(all(a >= b for a, b in zip(rs, rs[1:])), 'not-monotone', str(rs))
    m = flight.numbers(w.state)
    ctx.check(m == n, 'reward-changed-state', '')


PROP = E09()
