"""E19: the sun moves along the simulated clock as in the sky."""
import copy
import datetime as dt
import math
import os
import time

from sim import core
from sim import flight
from sim.ref import physics

UTC = dt.timezone.utc
ZONES = (0, 0, 60, -300, 330, 540, 780, -720, 840)


def almanac(lat, lng, t):
  """(true elevation, azimuth, distance [AU], hour angle) in degrees.

  The low-precision formulae of the Astronomical Almanac; good to 0.01 degrees
  between 1950 and 2050.  Shares nothing with the NOAA calculator.
  """
  n = (t - dt.datetime(2000, 1, 1, 12, tzinfo=UTC)).total_seconds() / 86400.0
  rad = math.radians
  g = rad(357.528 + 0.9856003 * n)
  lam = rad(280.460 + 0.9856474 * n + 1.915 * math.sin(g)
            + 0.020 * math.sin(2 * g))
  eps = rad(23.439 - 0.0000004 * n)
  ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
  dec = math.asin(math.sin(eps) * math.sin(lam))
  sidereal = rad(280.46062 + 360.98564737 * n)
  ha = math.remainder(sidereal + lng - ra, 2 * math.pi)
  el = math.asin(max(-1.0, min(1.0, math.sin(lat) * math.sin(dec) +
                               math.cos(lat) * math.cos(dec) * math.cos(ha))))
  az = math.atan2(-math.sin(ha) * math.cos(dec),
                  math.sin(dec) * math.cos(lat) -
                  math.cos(dec) * math.cos(ha) * math.sin(lat))
  dist = 1.00014 - 0.01671 * math.cos(g) - 0.00014 * math.cos(2 * g)
  return (math.degrees(el), math.degrees(az) % 360.0, dist, math.degrees(ha),
          math.degrees(dec))


def geometric(el):
  """The true elevation that belongs to an apparent one (NOAA refraction)."""
  lo, hi = el - 1.0, el + 0.1
  for _ in range(50):
    mid = (lo + hi) / 2
    lo, hi = (mid, hi) if mid + refraction(mid) < el else (lo, mid)
  return (lo + hi) / 2


def refraction(el):
  if el > 85.0:
    r = 0.0
  elif el > 5.0:
    x = math.tan(math.radians(el))
    r = 58.1 / x - 0.07 / x**3 + 0.000086 / x**5
  elif el > -0.575:
    r = 1735.0 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711)))
  else:
    r = -20.772 / math.tan(math.radians(el))
  return r / 3600.0


class KnownSearch:
  """The search as it is known to go astray (see known_findings.json).

  It halves the interval by comparing the objective at its two ends, which
  finds the minimum of functions that are symmetric about it.
  """
  STEP = dt.timedelta(minutes=3)

  def __init__(self, lat, lng, t):
    self.lat, self.lng, self.t, self.tie = lat, lng, t, False

  def el(self, t):
    return physics.sun(self.lat, self.lng, t)[0]

  def find(self, begin, end, loss):
    f = lambda k: loss(self.el(begin + self.STEP * k))
    low, high = 0, int((end - begin) / self.STEP)
    while high > low + 1:
      mid = low + (high - low) / 2
      a, b = f(low), f(high)
      self.tie |= abs(a - b) < 1e-7
      if a < b:
        high = math.ceil(mid)
      else:
        low = math.floor(mid)
    return begin + self.STEP * (low if f(low) < f(high) else high)

  def result(self):
    """{'sunrise' or 'sunset': (time, whether it hung by a thread)}."""
    t, h12, h24 = self.t, dt.timedelta(hours=12), dt.timedelta(hours=24)
    afternoon = self.el(t + dt.timedelta(seconds=1)) < self.el(t)
    later, sooner = (t + h12, t + h24), (t, t + h12)
    noon = self.find(*(later if afternoon else sooner), lambda e: -e)
    midnight = self.find(*(sooner if afternoon else later), lambda e: e)
    target = lambda e: abs(e - physics.MIN_SOLAR_EL)
    out = {}
    for name, begin, end in (('sunrise', midnight, noon),
                             ('sunset', noon, midnight)):
      if end < begin:
        begin -= h24
      x = self.find(begin, end, target)
      if x < t:
        x += h24
      out[name] = (x, self.tie or abs((x - t).total_seconds()) < 1 or
                   abs((x - t - h24).total_seconds()) < 1)
    return out


class E19(core.Prop):
  id = 'E19'
  title = 'The sun moves along the simulated clock as in the sky'
  rule = ('seeded simulated clocks (ticks of seconds to hours, jumps of days '
          'to decades, forwards and back, over year ends, leap days and '
          'midnights), several observers around the globe, dates written in '
          'drawn time zones, and a drawn local time zone of the machine; every '
          'answer about the sun is compared with two independent references, '
          'and the answers along the clock with each other; non-trivial: at '
          'least 30 answers')
  technique = ('seeded simulated clocks with jumps and zone changes, against '
               'independent astronomical references')
  runs = {'quick': 1500, 'thorough': 60000}
  real = ['solar.py: calculator, noon, midnight, sunrise and sunset search, '
          'attenuation, shadow and power of the panels']
  stub = ['the clock and the local time zone']
  assumptions = ['times between 1955 and 2049; schedules are asked for below '
                 '60 degrees of latitude, as documented']

  def setup(self):
    flight.Lib.load()
    from balloon_learning_environment.env.balloon import solar
    self.solar, self.s2 = solar, flight.Lib.s2

  # -- plans ---------------------------------------------------------------

  def generate(self, rng, tier):
    def place():
      r = rng.random()
      lat = (rng.uniform(-12, 12) if r < 0.5 else rng.uniform(-59.5, 59.5)
             if r < 0.85 else rng.choice([-90.0, 90.0, 0.0, 75.0, -68.3]))
      r = rng.random()
      lng = (rng.uniform(-180, 180) if r < 0.8 else
             rng.choice([-180.0, 180.0, 0.0, 179.999999, -179.999999]))
      return [lat, lng]
    places = [place() for _ in range(rng.choice([1, 2, 3]))]
    r = rng.random()
    if r < 0.5:
      start = rng.uniform(1293840000, 1420000000)      # 2011 to 2014
    elif r < 0.8:
      start = rng.uniform(-473385600, 2490000000)      # 1955 to 2048
    else:
      # Around a year end, a leap day, a month end or the epoch.
      y = rng.randrange(1956, 2048)
      m, d = rng.choice([(1, 1), (2, 28), (3, 1), (12, 31), (7, 1)])
      start = dt.datetime(y, m, d, tzinfo=UTC).timestamp() + rng.choice(
          [-7200, -180, -1, 0, 1, 180, 40000])
      if rng.random() < 0.1:
        start = rng.choice([-1.0, 0.0, 1.0])
    start = round(start) if rng.random() < 0.7 else start
    ops = []
    for _ in range(rng.randint(15, 60)):
      i, r = rng.randrange(len(places)), rng.random()
      if r < 0.3:
        ops.append(['tick', rng.choice([1, 10, 180, 180, 900, 3600, 5 * 3600])])
      elif r < 0.36:
        ops.append(['jump', rng.choice([86400, -86400, 86399, 30 * 86400,
                                        365 * 86400, -365 * 86400, 1e8, -1e8,
                                        rng.uniform(-1e6, 1e6)])])
      elif r < 0.7:
        ops.append(['sun', i, rng.choice(ZONES)])
      elif r < 0.76:
        ops.append(['day', i, rng.choice([60, 180, 180, 600]),
                    rng.choice(ZONES)])
      elif r < 0.82:
        ops.append(['rise', i, rng.choice(ZONES),
                    rng.choice([60, 60.5, 100.9, 237.25, 600])])
      elif r < 0.85:
        ops.append(['zenith', i, rng.randrange(2**31)])
      elif r < 0.93:
        ops.append(['power', i, round(rng.uniform(1000, 101325), 1)])
      elif r < 0.97:
        ops.append(['bad', i, rng.choice(['naive', 'lat', 'lng', 'elevation',
                                          'pressure', 'polar'])])
      else:
        ops.append(['local', rng.choice(['UTC0', 'XYZ-9', 'XYZ5', 'XYZ-13',
                                         'EST5EDT,M3.2.0,M11.1.0'])])
    return {'cfg': {'places': places, 'start': start}, 'ops': ops}

  def shrink(self, plan):
    if plan['cfg']['start'] != round(plan['cfg']['start']):
      q = copy.deepcopy(plan)
      q['cfg']['start'] = round(plan['cfg']['start'])
      yield q

  def nontrivial(self, plan, ctx):
    return ctx.probes.get('asked', 0) >= 30

  # -- execution -----------------------------------------------------------

  def execute(self, plan, ctx):
    tz = os.environ.get('TZ')
    try:
      self.run(plan, ctx)
    finally:
      if tz is None:
        os.environ.pop('TZ', None)
      else:
        os.environ['TZ'] = tz
      time.tzset()

  def run(self, plan, ctx):
    self.t = dt.datetime(1970, 1, 1, tzinfo=UTC) + dt.timedelta(
        seconds=plan['cfg']['start'])
    self.places = [self.s2.LatLng.from_degrees(*p) for p in plan['cfg']['places']]
    self.last = {}
    for op in plan['ops']:
      if op[0] in ('tick', 'jump'):
        t = self.t + dt.timedelta(seconds=op[1])
        if 1955 <= t.year <= 2048:
          self.t = t
          ctx.sim_seconds += abs(op[1])
        if op[0] == 'jump':
          self.last = {}
          ctx.fault('clock_jump')
      elif op[0] == 'local':
        os.environ['TZ'] = op[1]
        time.tzset()
        ctx.fault('local_zone')
      elif op[1] < len(self.places):
        getattr(self, 'op_' + op[0])(ctx, op[1], *op[2:])
        ctx.log(op[0], op[1], str(self.t), [round(x, 6) for x in
                                            self.last.get(op[1], (0,))[1:]])

  def zoned(self, t, minutes):
    if minutes:
      return t.astimezone(dt.timezone(dt.timedelta(minutes=minutes)))
    return t

  def ask(self, ctx, place, t):
    ctx.probe('asked')
    return tuple(float(v) for v in self.solar.solar_calculator(place, t))

  def where(self, place):
    return place.lat().radians, place.lng().radians

  def judge(self, ctx, place, t, got, what):
    el, az, flux = got
    lat, lng = self.where(place)
    ctx.check(all(math.isfinite(v) for v in got) and -90.6 <= el <= 90.0001 and
              -1e-9 <= az <= 360 + 1e-9, 'impossible', f'{what}: {got}')
    ref, ref_flux = physics.sun(lat, lng, t)
    ctx.check(abs(el - ref) < 1e-4, 'elevation', lambda:
              f'{what}: {el} deg, the NOAA calculator gives {ref} deg')
    ctx.check(abs(flux - ref_flux) < 1e-6 * ref_flux, 'flux', lambda:
              f'{what}: {flux} W/m2, the NOAA calculator gives {ref_flux}')
    a_el, a_az, dist, ha, dec = almanac(lat, lng, t)
    tol = 0.03 + (0.0042 if t.microsecond else 0)
    ctx.check(abs(geometric(el) - a_el) < tol, 'almanac', lambda:
              f'{what}: {el} deg, {geometric(el)} deg without refraction; the '
              f'almanac gives {a_el} deg')
    ctx.check(abs(flux * dist**2 - 1366.0) < 4.0, 'almanac-flux', lambda:
              f'{what}: {flux} W/m2 at {dist} AU')
    # The azimuth cannot be told near the zenith, the nadir and the poles.
    spread = math.cos(math.radians(a_el)) * math.cos(lat)
    off = abs(math.remainder(az - a_az, 360.0))
    if spread > 0.01:
      # An arc cosine: half the digits are lost near north and south.
      ns = abs(math.sin(math.radians(a_az)))
      ctx.check(off * spread < 0.05 or (ns < 0.02 and off * spread < 1.0),
                'azimuth', lambda: f'{what}: {az} deg, the almanac gives '
                f'{a_az} deg at elevation {a_el}')
    return a_el, ha, dec

  def op_sun(self, ctx, i, zone):
    place, t = self.places[i], self.t
    what = f'{place} at {t}'
    lat, lng = self.where(place)
    got = self.ask(ctx, place, t)
    _, ha, dec = self.judge(ctx, place, t, got, what)
    ctx.state('sun', int(got[0] // 15), int(ha // 45), int(dec // 8),
              int(place.lat().degrees // 20))
    if zone:
      z = self.zoned(t, zone)
      other = self.ask(ctx, place, z)
      ctx.check(all(abs(a - b) < 1e-9 * max(1, abs(a))
                    for a, b in zip(got, other)), 'zone', lambda:
                f'{what}: {got}; written as {z}: {other}')
      ctx.fault('zone')
    ctx.check((place.lat().radians, place.lng().radians) == (lat, lng),
              'place-moved', what)
    if i in self.last:
      t0, el0 = self.last[i]
      d = abs((t - t0).total_seconds())
      ctx.check(abs(got[0] - el0) < 0.01 + 0.0075 * d, 'leap', lambda:
                f'{what}: from {el0} deg to {got[0]} deg in {d} s')
    self.last[i] = (t, got[0])
    # Before or after noon?
    if abs(place.lat().degrees) < 66 and 2 < abs(ha) < 178:
      ctx.check(bool(self.solar.is_solar_afternoon(place, t)) == (ha > 0),
                'afternoon', f'{what}: hour angle {ha}')

  def op_zenith(self, ctx, i, salt):
    """The place over which the sun stands just now, give or take nothing."""
    _, _, _, ha, dec = almanac(0.0, 0.0, self.t)
    lat, lng = dec, math.remainder(-ha, 360.0)
    ask = lambda a, b: self.ask(ctx, self.s2.LatLng.from_degrees(
        a, math.remainder(b, 360.0)), self.t)
    what = lambda: f'near ({lat}, {lng}) at {self.t}'
    best, step = ask(lat, lng), 0.02
    # Uphill in elevation; 0.01 degrees away from the almanac at most.
    for _ in range(120):
      for a, b in ((step, 0), (-step, 0), (0, step), (0, -step)):
        v = ask(lat + a, lng + b)
        ctx.check(all(math.isfinite(x) for x in v), 'impossible', lambda:
                  f'{what()}: {v}')
        if v[0] > best[0]:
          best, lat, lng = v, lat + a, lng + b
          break
      else:
        step /= 3
        if step < 1e-8:
          break
    ctx.check(best[0] > 89.999, 'zenith', lambda: f'{what()}: {best}')
    for k in range(20):
      h = core.derive('z', salt, k)
      v = ask(lat + (h % 2001 - 1000) * 1e-11,
              lng + (h // 2001 % 2001 - 1000) * 1e-11)
      ctx.check(all(math.isfinite(x) for x in v) and v[0] > 89.999,
                'impossible', lambda: f'{what()}: {v}')
    p = self.solar.solar_power(best[0], 8000.0).watts
    ctx.check(math.isfinite(p) and p > 0, 'impossible', lambda: f'{what()} {p}')
    ctx.probe('zenith')

  def op_power(self, ctx, i, p):
    place, t = self.places[i], self.t
    el = self.ask(ctx, place, t)[0]
    what = f'sun at {el} deg, {p} Pa'
    f = float(self.solar.solar_atmospheric_attenuation(el, p))
    w = float(self.solar.solar_power(el, p).watts)
    up = el >= physics.MIN_SOLAR_EL
    if abs(el - physics.MIN_SOLAR_EL) > 1e-9:
      ctx.check((f > 0) == up and (w > 0) == up, 'power-at-night',
                f'{what}: {f}, {w} W')
    ctx.check(0 <= f <= 1 and 0 <= w <= 6 * 210, 'impossible',
              f'{what}: {f}, {w} W')
    ctx.check(abs(f - physics.attenuation(el, p)) < 1e-9, 'attenuation',
              f'{what}: {f}, the reference {physics.attenuation(el, p)}')
    ctx.check(abs(w - physics.solar_watts(el, p)) < 1e-6, 'power',
              f'{what}: {w} W, the reference {physics.solar_watts(el, p)} W')
    if up:
      g = float(self.solar.solar_atmospheric_attenuation(el, p * 0.9))
      ctx.check(g > f, 'attenuation', f'{what}: {f}, and {g} higher up')
      if el < 89:
        h = float(self.solar.solar_atmospheric_attenuation(el + 0.5, p))
        ctx.check(h > f, 'attenuation', f'{what}: {f}, and {h} with more sun')
    ctx.probe('power')

  def hour_angle(self, place, t):
    return almanac(*self.where(place), t)[3]

  def op_day(self, ctx, i, seconds, zone):
    """The next noon and midnight."""
    place, t = self.places[i], self.t
    if abs(place.lat().degrees) >= 66:
      return
    delta = dt.timedelta(seconds=seconds)
    for name, call, at in (
        ('noon', self.solar.get_next_solar_noon, 0.0),
        ('midnight', self.solar.get_next_solar_midnight, 180.0)):
      x, el = call(place, self.zoned(t, zone), delta)
      ctx.probe('asked')
      what = f'{place} at {t}: {name} at {x}'
      ahead = (x - t).total_seconds()
      ctx.check(-seconds <= ahead <= 86400 + 2 * seconds + 60, 'next-' + name,
                f'{what}, {ahead} s ahead')
      off = math.remainder(self.hour_angle(place, x) - at, 360.0) * 240.0
      # Two steps of the search, and where the sun hardly moves, the drift of
      # its declination.
      slack = 2 * seconds + 60 + 40 * abs(math.tan(place.lat().radians))
      ctx.check(abs(off) < slack, 'wrong-' + name, f'{what}, off by {off} s')
      ctx.check(abs(el - self.ask(ctx, place, x)[0]) < 1e-9, 'wrong-' + name,
                f'{what}: {el} deg')
      self.judge(ctx, place, x.astimezone(UTC), self.ask(ctx, place, x), what)

  def op_rise(self, ctx, i, zone, seconds):
    """The next sunrise and sunset, and the way there."""
    place, t = self.places[i], self.t
    if abs(place.lat().degrees) >= 59.9:
      return
    z = self.zoned(t, zone)
    rise, sett = self.solar.get_next_sunrise_sunset(place, z)
    ctx.probe('asked')
    lat, lng = self.where(place)
    for name, x, sign in (('sunrise', rise, 1), ('sunset', sett, -1)):
      x = x.astimezone(UTC)
      what = f'{place} at {t}: {name} at {x}'
      ahead = (x - t).total_seconds()
      ctx.check(-300 <= ahead <= 86400 + 300, 'next-' + name,
                f'{what}, {ahead} s ahead')
      el = physics.sun(lat, lng, x)[0]
      later = physics.sun(lat, lng, x + dt.timedelta(minutes=3))[0]
      ctx.check((later - el) * sign > 0, 'wrong-' + name,
                f'{what}: {el} deg, and {later} deg three minutes later')
      # When does the sun truly cross the threshold?
      off = self.crossing(lat, lng, x, sign)
      ctx.probe('schedule')
      if off is None or abs(off) > 360:
        # Known: the search goes astray, in exactly this way.
        known, near_tie = KnownSearch(lat, lng, t).result()[name]
        ctx.check(near_tie or abs((x - known).total_seconds()) <= 200,
                  'wrong-' + name, lambda: f'{what}: {el} deg, {off} s from '
                  'the true one')
        ctx.finding('E19-schedule-search', 'late-' + name,
                    f'{what}: {el} deg, {off} s from the true one')
      else:
        ctx.probe('schedule_exact')
    el = self.ask(ctx, place, t)[0]
    n = self.solar.calculate_steps_to_sunrise(place, z)
    if abs(el - physics.MIN_SOLAR_EL) > 1e-6:
      day = el > physics.MIN_SOLAR_EL
      want = 0 if day else math.ceil((rise - t).total_seconds() / 180.0)
      ctx.check(n == want, 'steps-to-sunrise', f'{place} at {t}: {n} steps to '
                f'{rise}, the sun is at {el} deg')
      delta = dt.timedelta(seconds=seconds)
      n = self.solar.calculate_steps_to_sunrise(place, z, delta)
      rise = self.solar.get_next_sunrise_sunset(place, z, delta)[0]
      want = 0 if day else math.ceil((rise - t) / delta)
      ctx.check(n == want, 'steps-to-sunrise', f'{place} at {t}: {n} steps of '
                f'{seconds} s to {rise}, the sun is at {el} deg')

  def crossing(self, lat, lng, x, sign):
    """Seconds by which x is later than the crossing nearest to it."""
    f = lambda s: (physics.sun(lat, lng, x + dt.timedelta(seconds=s))[0] -
                   physics.MIN_SOLAR_EL) * sign
    lo = hi = 0
    while f(lo) > 0:
      lo -= 120
      if lo < -4 * 3600:
        return None
    while f(hi) < 0:
      hi += 120
      if hi > 4 * 3600:
        return None
    while hi - lo > 2:
      mid = (lo + hi) // 2
      lo, hi = (mid, hi) if f(mid) < 0 else (lo, mid)
    return -(lo + hi) / 2.0

  def op_bad(self, ctx, i, kind):
    place, t, s = self.places[i], self.t, self.solar
    call = {
        'naive': lambda: s.solar_calculator(place, t.replace(tzinfo=None)),
        'lat': lambda: s.solar_calculator(
            self.s2.LatLng.from_degrees(90.5, 0.0), t),
        'lng': lambda: s.solar_calculator(
            self.s2.LatLng.from_degrees(0.0, 180.5), t),
        'elevation': lambda: s.solar_atmospheric_attenuation(90.5, 8000.0),
        'pressure': lambda: s.solar_atmospheric_attenuation(10.0, 101326.0),
        'polar': lambda: s.get_next_sunrise_sunset(
            self.s2.LatLng.from_degrees(-60.5, 0.0), t)}[kind]
    try:
      v = call()
    except (ValueError, AssertionError):
      ctx.fault('refused')
      return
    ctx.check(False, 'not-refused', f'{kind}: {v}')


PROP = E19()
