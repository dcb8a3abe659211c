"""Flies the real balloon, arena or environment through a plan.

A plan is {'cfg': {...}, 'ops': [...]}; the operations are
  ['act', 'ddsu...']     one control step per letter (down, stay, up)
  ['fault', kind, args]  an environmental fault put in through
                         set_balloon_state, between two steps
  ['reset'] / ['seed', n]
"""
import copy
import datetime as dt
import math

from sim import core
from sim import fields
from sim.ref import physics

LETTER = {'d': 'DOWN', 's': 'STAY', 'u': 'UP'}
CODE = {'DOWN': 0, 'STAY': 1, 'UP': 2}

FAULTS = ('gas_leak', 'air_leak', 'air_fill', 'battery', 'infrared', 'clock',
          'teleport', 'pressure', 'superpressure', 'heat', 'safety_off',
          'safety_on', 'ballonet_empty')


class Lib:
  """The modules of the repo, imported once."""
  ready = False

  @classmethod
  def load(cls):
    if cls.ready:
      return
    import numpy as np
    import jax
    import s2sphere
    from balloon_learning_environment.env import balloon_arena
    from balloon_learning_environment.env import balloon_env
    from balloon_learning_environment.env import features
    from balloon_learning_environment.env import simulator_data
    from balloon_learning_environment.env import wind_field
    from balloon_learning_environment.env.balloon import balloon
    from balloon_learning_environment.env.balloon import control
    from balloon_learning_environment.env.balloon import stable_init
    from balloon_learning_environment.env.balloon import standard_atmosphere
    from balloon_learning_environment.utils import units
    cls.np, cls.jax, cls.s2 = np, jax, s2sphere
    cls.balloon_arena, cls.balloon_env = balloon_arena, balloon_env
    cls.features, cls.simulator_data = features, simulator_data
    cls.wind_field, cls.balloon, cls.control = wind_field, balloon, control
    cls.stable_init, cls.units = stable_init, units
    cls.standard_atmosphere = standard_atmosphere
    cls.ready = True


def command(letter):
  return getattr(Lib.control.AltitudeControlCommand, LETTER[letter])


def numbers(b):
  """The vehicle as plain numbers, read through public attributes only."""
  return {
      'x': b.x.meters, 'y': b.y.meters,
      'clat': b.center_latlng.lat().radians,
      'clng': b.center_latlng.lng().radians,
      'pressure': float(b.pressure),
      'ambient_temperature': float(b.ambient_temperature),
      'internal_temperature': float(b.internal_temperature),
      'envelope_volume': float(b.envelope_volume),
      'superpressure': float(b.superpressure),
      'mols_air': float(b.mols_air), 'mols_lift_gas': float(b.mols_lift_gas),
      'acs_watts': float(b.acs_power.watts),
      'acs_mass_flow': float(b.acs_mass_flow),
      'solar_watts': float(b.solar_charging.watts),
      'load_watts': float(b.power_load.watts),
      'battery_wh': float(b.battery_charge.watt_hours),
      'capacity_wh': float(b.battery_capacity.watt_hours),
      'date_time': b.date_time, 'elapsed': b.time_elapsed.total_seconds(),
      'status': b.status.name, 'ir': float(b.upwelling_infrared),
      'envelope_mass': float(b.envelope_mass),
      'payload_mass': float(b.payload_mass), 'cod': float(b.envelope_cod),
      'v0': float(b.envelope_volume_base),
      'dv': float(b.envelope_volume_dv_pressure),
      'sp_max': float(b.envelope_max_superpressure),
      'valve': float(b.acs_valve_hole_diameter.meters),
      'day_w': float(b.daytime_power_load.watts),
      'night_w': float(b.nighttime_power_load.watts),
      'last': b.last_command.name,
  }


NUMERIC = ('x', 'y', 'pressure', 'ambient_temperature', 'internal_temperature',
           'envelope_volume', 'superpressure', 'mols_air', 'mols_lift_gas',
           'acs_watts', 'acs_mass_flow', 'solar_watts', 'load_watts',
           'battery_wh', 'elapsed', 'ir')


def effective(n):
  """Which action took effect in the last step, from its visible effects."""
  if n['acs_watts'] > 0.0:
    return 'DOWN'
  if n['acs_mass_flow'] < 0.0:
    return 'UP'
  return 'STAY'


def close(a, b, rel=1e-7, abs_=1e-7):
  return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


def apply_fault(state, atmosphere, kind, args):
  """A changed copy of the vehicle state (the safety layers stay attached)."""
  u = Lib.units
  b = copy.copy(state)
  if kind == 'gas_leak':
    b.mols_lift_gas = b.mols_lift_gas * args[0]
  elif kind == 'air_leak':
    b.mols_air = b.mols_air * args[0]
  elif kind == 'air_fill':
    b.mols_air = b.mols_air + args[0]
  elif kind == 'ballonet_empty':
    b.mols_air = 0.0
  elif kind == 'battery':
    b.battery_charge = u.Energy(
        watt_hours=b.battery_capacity.watt_hours * args[0])
  elif kind == 'infrared':
    b.upwelling_infrared = args[0]
  elif kind == 'clock':
    b.date_time = b.date_time + dt.timedelta(seconds=args[0])
  elif kind == 'teleport':
    b.x = u.Distance(m=args[0])
    b.y = u.Distance(m=args[1])
  elif kind == 'pressure':
    # Restart in equilibrium at another altitude.
    b.pressure = args[0]
    Lib.stable_init.cold_start_to_stable_params(b, atmosphere)
  elif kind == 'superpressure':
    b.superpressure = args[0]
  elif kind == 'heat':
    b.internal_temperature = b.internal_temperature + args[0]
  elif kind == 'sp_target':
    # The amount of gas that gives this superpressure here and now.
    total = moles_for(args[0], b)
    air = total - b.mols_lift_gas
    b.mols_air = max(0.0, air)
    b.mols_lift_gas = total - b.mols_air
    b.superpressure = args[0]
  elif kind == 'safety_off':
    b.power_safety_layer_enabled = False
  elif kind == 'safety_on':
    b.power_safety_layer_enabled = True
  else:
    raise core.HarnessError(f'unknown fault {kind}')
  return b


def moles_for(sp, b):
  lo, hi = 1.0, 1e5
  for _ in range(80):
    mid = 0.5 * (lo + hi)
    _, got = physics.volume_superpressure(
        mid, b.internal_temperature, b.pressure, b.envelope_volume_base,
        b.envelope_volume_dv_pressure)
    lo, hi = (mid, hi) if got < sp else (lo, mid)
  return 0.5 * (lo + hi)


def draw_fault(rng, kinds):
  kind = rng.choice(kinds)
  if kind == 'gas_leak':
    args = [round(rng.choice([0.999, 0.99, 0.97, 0.93, 1.03, 1.08]), 4)]
  elif kind == 'air_leak':
    args = [round(rng.choice([0.95, 0.8, 0.5, 0.1]), 3)]
  elif kind == 'air_fill':
    args = [round(rng.choice([20.0, 100.0, 300.0, 800.0]), 1)]
  elif kind == 'ballonet_empty':
    args = []
  elif kind == 'battery':
    args = [rng.choice([0.0005, 0.002, 0.01, 0.024, 0.03, 0.049, 0.051, 0.1,
                        0.3, 0.45, 0.6, 0.8, 0.985, 0.995, 1.0])]
  elif kind == 'infrared':
    args = [rng.choice([225.0, 240.0, 260.0, 280.0, 300.0, 314.0])]
  elif kind == 'clock':
    args = [rng.choice([60, 600, 1800, 3600, 2 * 3600, 4 * 3600, 6 * 3600,
                        9 * 3600, 12 * 3600, 86400, 3 * 86400])]
  elif kind == 'teleport':
    r = rng.choice([0.0, 1.0, 20e3, 49.9e3, 50.1e3, 80e3, 150e3, 350e3, 499e3,
                    501e3, 900e3])
    th = rng.choice([rng.uniform(0, 2 * math.pi), 0.0, math.pi / 2, math.pi])
    args = [r * math.cos(th), r * math.sin(th)]
  elif kind == 'pressure':
    args = [round(rng.uniform(6600.0, 11800.0), 2)]
  elif kind == 'superpressure':
    args = [round(rng.choice([
        rng.uniform(20.0, 2370.0), rng.uniform(100, 350),
        rng.uniform(2050, 2300)]), 2)]
  elif kind == 'sp_target':
    args = [round(rng.choice([rng.uniform(100, 350), rng.uniform(60, 320),
                              rng.uniform(2050, 2370)]), 2)]
  elif kind == 'heat':
    args = [rng.choice([-15.0, -8.0, -3.0, 3.0, 8.0, 15.0])]
  else:
    args = []
  return ['fault', kind] + args


def draw_actions(rng, n):
  """Runs of one command, of random lengths, with some jitter."""
  out = ''
  while len(out) < n:
    mode = rng.random()
    if mode < 0.3:
      out += rng.choice('dsu') * rng.randint(1, 12)
    elif mode < 0.5:
      out += 'd' * rng.randint(10, 60)
    elif mode < 0.6:
      out += 'u' * rng.randint(10, 40)
    elif mode < 0.7:
      out += rng.choice(['du', 'ds', 'us', 'dsu']) * rng.randint(2, 8)
    else:
      out += ''.join(rng.choice('dsu') for _ in range(rng.randint(1, 10)))
  return out[:n]


def draw_cfg(rng, level=None, fields_=('simple', 'grid', 'storm')):
  return {
      'level': level or rng.choice(['env', 'balloon', 'balloon']),
      'field': rng.choice(fields_),
      'speed': rng.choice([3.0, 12.0, 25.0, 45.0]),
      'seed': rng.randrange(2**31),
      'power_safety': rng.random() < 0.85,
      # Used by the balloon level only.
      'lat': round(rng.uniform(-10, 10), 4),
      'lng': round(rng.uniform(-175, 175), 4),
      'x': round(rng.uniform(-200e3, 200e3), 1),
      'y': round(rng.uniform(-200e3, 200e3), 1),
      'pressure': round(rng.uniform(6600, 11400), 2),
      'ir': round(rng.uniform(226, 314), 3),
      'start': rng.randrange(0, 4 * 365 * 86400),
      'alpha_seed': rng.randrange(2**31),
      'params': draw_params(rng),
  }


def draw_params(rng):
  """Other vehicles than the default one (same model, other constants)."""
  p = {}
  if rng.random() < 0.3:
    if rng.random() < 0.5:
      p['battery_wh'] = rng.choice([500.0, 1500.0, 4000.0])
    if rng.random() < 0.4:
      p['night_w'] = rng.choice([150.0, 220.0])
      p['day_w'] = rng.choice([100.0, 140.0])
    if rng.random() < 0.4:
      p['valve'] = rng.choice([0.03, 0.05])
    if rng.random() < 0.4:
      p['sp_max'] = rng.choice([2200.0, 2600.0])
    if rng.random() < 0.3:
      p['cod'] = rng.choice([0.2, 0.3])
    if rng.random() < 0.3:
      p['payload'] = rng.choice([90.0, 95.0])
  return p


def env_state_copy(state):
  return copy.copy(state)


_PLAIN = []


def plain_features():
  """A feature constructor that reads a few state numbers, and cannot fail.

  Stands in for the real one where faults leave the region the real one is
  specified for, and where only the vehicle matters.
  """
  if not _PLAIN:
    import gym
    np = Lib.np

    class Plain(Lib.features.FeatureConstructor):

      def __init__(self, forecast, atmosphere):
        self.last = None

      def observe(self, observation):
        self.last = observation.balloon_observation

      def get_features(self):
        b = self.last
        return np.array([b.pressure, b.x.meters, b.y.meters,
                         b.battery_soc], dtype=np.float32)

      @property
      def observation_space(self):
        return gym.spaces.Box(low=np.full(4, -1e9, np.float32),
                              high=np.full(4, 1e9, np.float32))

    Plain.__qualname__ = 'Plain'   # picklable
    globals()['Plain'] = Plain
    _PLAIN.append(Plain)
  return _PLAIN[0]


class World:
  """One vehicle in one simulated world, at one of two levels."""

  def __init__(self, cfg, ctx, renderer=None, reward=None):
    self.cfg, self.ctx = cfg, ctx
    self.level = cfg['level']
    self.field = fields.make(cfg['field'], cfg.get('speed'))
    self.obs = self.reward = self.info = None
    self.terminal = False
    self.steps = 0
    if self.level == 'env':
      kw = {}
      if reward is not None:
        kw['reward_function'] = reward
      if cfg.get('features') == 'stub':
        kw['feature_constructor_factory'] = plain_features()
      self.env = Lib.balloon_env.BalloonEnv(
          wind_field_factory=lambda: self.field, seed=cfg['seed'],
          renderer=renderer, **kw)
      self.arena = self.env.arena
      self.obs = self.env.reset(seed=cfg['seed'])
      if not cfg.get('power_safety', True):
        self.inject('safety_off', [])
    else:
      self._fresh_balloon(cfg)

  def _fresh_balloon(self, cfg):
    u = Lib.units
    jax = Lib.jax
    self.env = None
    self.atm = Lib.standard_atmosphere.Atmosphere(
        jax.random.PRNGKey(cfg['alpha_seed']))
    start = u.datetime(2011, 1, 1) + dt.timedelta(seconds=cfg['start'])
    p = cfg.get('params', {})
    kw = {}
    if 'battery_wh' in p:
      kw['battery_capacity'] = u.Energy(watt_hours=p['battery_wh'])
      kw['battery_charge'] = u.Energy(watt_hours=p['battery_wh'] * 0.9)
    if 'night_w' in p:
      kw['nighttime_power_load'] = u.Power(watts=p['night_w'])
      kw['daytime_power_load'] = u.Power(watts=p['day_w'])
    if 'valve' in p:
      kw['acs_valve_hole_diameter'] = u.Distance(m=p['valve'])
    if 'sp_max' in p:
      kw['envelope_max_superpressure'] = p['sp_max']
    if 'cod' in p:
      kw['envelope_cod'] = p['cod']
    if 'payload' in p:
      kw['payload_mass'] = p['payload']
    b = Lib.balloon.BalloonState(
        center_latlng=Lib.s2.LatLng.from_degrees(cfg['lat'], cfg['lng']),
        x=u.Distance(m=cfg['x']), y=u.Distance(m=cfg['y']),
        pressure=cfg['pressure'], date_time=start,
        upwelling_infrared=cfg['ir'],
        power_safety_layer_enabled=cfg.get('power_safety', True), **kw)
    Lib.stable_init.cold_start_to_stable_params(b, self.atm)
    self.balloon = Lib.balloon.Balloon(b)
    self.field.reset(jax.random.PRNGKey(cfg['seed']), start)

  # -- access --------------------------------------------------------------

  @property
  def state(self):
    if self.level == 'env':
      return self.arena.get_balloon_state()
    return self.balloon.state

  @state.setter
  def state(self, b):
    if self.level == 'env':
      self.arena.set_balloon_state(b)
    else:
      self.balloon.state = b

  @property
  def atmosphere(self):
    if self.level == 'env':
      return self.arena.get_simulator_state().atmosphere
    return self.atm

  @property
  def wind_field(self):
    if self.level == 'env':
      return self.arena.get_simulator_state().wind_field
    return self.field

  def wind(self):
    b = self.state
    return self.wind_field.get_ground_truth(b.x, b.y, b.pressure,
                                            b.time_elapsed)

  def uv(self):
    w = self.wind()
    return (w.u.meters_per_second, w.v.meters_per_second)

  # -- actions -------------------------------------------------------------

  def inject(self, kind, args):
    self.state = apply_fault(self.state, self.atmosphere, kind, args)
    self.ctx.fault(kind)

  def reset(self, seed=None):
    if self.level == 'env':
      self.obs = (self.env.reset() if seed is None
                  else self.env.reset(seed=seed))
      if not self.cfg.get('power_safety', True):
        self.inject('safety_off', [])
    else:
      cfg = dict(self.cfg)
      if seed is not None:
        cfg['seed'] = seed
      cfg['start'] = (cfg['start'] + 7919 * (self.steps + 1)) % (4 * 365 * 86400)
      self._fresh_balloon(cfg)
    self.terminal = False
    self.reward = self.info = None

  def step(self, letter, seconds=180):
    self.steps += 1
    if self.level == 'env':
      # The action as an agent hands it over: an integer.
      code = int(command(letter).value)
      self.obs, self.reward, self.terminal, self.info = self.env.step(code)
    else:
      w = self.wind()
      self.balloon.simulate_step(w, self.atm, command(letter),
                                 dt.timedelta(seconds=seconds))
      self.terminal = self.state.status.name != 'OK'
    self.ctx.sim_seconds += seconds


def bucket(n):
  """Coarse abstract state: which regions of the state space runs reach."""
  sp = n['superpressure']
  spb = 0 if sp < 150 else 1 if sp < 250 else 2 if sp < 300 else (
      3 if sp < 1200 else 4 if sp < 2080 else 5 if sp < 2130 else
      6 if sp < 2230 else 7)
  soc = n['battery_wh'] / n['capacity_wh']
  return (spb, int(n['pressure'] // 500), int(soc * 10),
          n['solar_watts'] > 0, n['status'], effective(n), n['last'],
          min(12, int(math.hypot(n['x'], n['y']) // 50e3)))


class FlightProp(core.Prop):
  """Scenario: fly plans and compare against an oracle step by step."""

  kinds = FAULTS
  levels = ('env', 'balloon', 'balloon')
  fields_ = ('simple', 'grid', 'storm')
  fault_rate = 0.5
  stub_features = True
  steps_per_op = 30
  n_steps = {'quick': 260, 'thorough': 500}
  real = ['BalloonEnv, BalloonArena, Balloon physics, safety layers, solar, '
          'thermal, atmosphere, ACS, wind noise, WindGP, features']
  stub = ['trained wind decoder weights (not shipped): wind comes from the '
          'simple field, a random grid sampler or an analytic storm']
  assumptions = [
      'faults change the vehicle only between control steps, through the '
      'public set_balloon_state',
      'floating-point results are compared with a relative tolerance']

  def setup(self):
    Lib.load()

  def generate(self, rng, tier):
    cfg = draw_cfg(rng, rng.choice(self.levels), self.fields_)
    if self.stub_features and cfg['level'] == 'env':
      cfg['features'] = 'stub'
    self.tune_cfg(rng, cfg)
    ops, left = [], rng.randint(60, self.n_steps[tier])
    while left > 0:
      r = rng.random()
      if r < 0.4 * self.fault_rate * 2:
        ops.append(self.draw_fault(rng))
      elif r > 0.985:
        ops.append(rng.choice([['reset'], ['seed', rng.randrange(2**31)]]))
      k = min(left, rng.randint(1, self.steps_per_op))
      ops.append(['act', draw_actions(rng, k)])
      left -= k
    return {'cfg': cfg, 'ops': ops}

  def draw_fault(self, rng):
    return draw_fault(rng, self.kinds)

  def tune_cfg(self, rng, cfg):
    pass

  # -- hooks ---------------------------------------------------------------

  def begin(self, w, ctx):
    """Called after construction and after every reset."""

  def before(self, w, ctx, letter):
    return None

  def after(self, w, ctx, letter, pre, token):
    pass

  def at_terminal(self, w, ctx):
    pass

  def after_fault(self, w, ctx, op):
    pass

  def make_world(self, cfg, ctx):
    return World(cfg, ctx)

  def execute(self, plan, ctx):
    w = self.make_world(plan['cfg'], ctx)
    self.begin(w, ctx)
    ctx.log('begin', numbers(w.state))
    for op in plan['ops']:
      self.run_op(w, ctx, op)
    if w.terminal:
      self.at_terminal(w, ctx)

  def run_op(self, w, ctx, op):
    if op[0] == 'act':
      for letter in op[1]:
        if w.terminal:
          self.at_terminal(w, ctx)
          w.reset()
          self.begin(w, ctx)
          ctx.probe('reset_after_failure')
        token = self.before(w, ctx, letter)
        pre = numbers(w.state)
        w.step(letter)
        self.after(w, ctx, letter, pre, token)
        n = numbers(w.state)
        ctx.state(*bucket(n))
        ctx.log('step', letter, n['x'], n['y'], n['pressure'],
                n['superpressure'], n['battery_wh'], n['mols_air'],
                n['internal_temperature'], n['status'], n['elapsed'], w.reward)
        if n['status'] != 'OK':
          ctx.probe('failure:' + n['status'])
    elif op[0] == 'fault':
      if w.terminal:
        return
      w.inject(op[1], op[2:])
      ctx.log('fault', op)
      self.after_fault(w, ctx, op)
    elif op[0] in ('reset', 'seed'):
      w.reset(op[1] if op[0] == 'seed' else None)
      ctx.fault('early_reset')
      self.begin(w, ctx)
      ctx.log('reset', numbers(w.state))

  def shrink(self, plan):
    # Shorter action strings, then plainer settings.
    for i, op in enumerate(plan['ops']):
      if op[0] == 'act' and len(op[1]) > 1:
        h = len(op[1]) // 2
        for part in (op[1][:h], op[1][h:], op[1][:-1], op[1][1:]):
          q = dict(plan, ops=plan['ops'][:i] + [['act', part]] +
                   plan['ops'][i + 1:])
          yield q
    for k, v in (('field', 'simple'), ('params', {}), ('power_safety', True),
                 ('level', 'balloon')):
      if plan['cfg'].get(k) != v:
        yield dict(plan, cfg=dict(plan['cfg'], **{k: v}))

  def nontrivial(self, plan, ctx):
    return ctx.ntrace > 20 and len(ctx.states) >= 3
