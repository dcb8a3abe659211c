"""Reference encoding of the observation (from its documentation)."""
import bisect
import datetime as dt
import math

from sim.ref import physics

P_MIN, P_MAX, LEVELS = 5000.0, 14000.0, 181
SIZE = 16 + 3 * (2 * LEVELS - 1)

_PR = [1.08, 1.11, 1.14, 1.17, 1.2, 1.23, 1.26]
_SOC = [([0.3, 0.4, 0.5], [0, 150, 175, 200]),
        ([0.3, 0.4, 0.7], [0, 200, 200, 225]),
        ([0.3, 0.4, 0.6], [0, 225, 225, 250]),
        ([0.3, 0.4, 0.5], [0, 200, 225, 250]),
        ([0.3, 0.4, 0.5], [0, 225, 250, 275]),
        ([0.4, 0.5], [0, 275, 300]),
        ([0.5, 0.6], [0, 300, 325]),
        ([0.5, 0.6], [0, 325, 350])]


def power_to_use(ratio, soc):
  """(watts, whether a table edge is too close to call)."""
  i = bisect.bisect(_PR, ratio)
  edges, values = _SOC[i]
  tie = (min(abs(ratio - x) for x in _PR) < 1e-9
         or min(abs(soc - x) for x in edges) < 1e-9)
  return values[bisect.bisect(edges, soc)], tie


def clamp01(x):
  return min(max(x, 0.0), 1.0)


def solar_cycle(lat, lng, now):
  """Normalised solar time by the reference sun: sunrise 0, sunset pi.

  Found by scanning; accurate to about a minute.
  """
  def el(t):
    return physics.sun(lat, lng, t)[0] - physics.MIN_SOLAR_EL
  def cross(t, step):
    a = t
    sign = el(a) > 0
    for _ in range(24 * 12 + 2):
      b = a + step
      if (el(b) > 0) != sign:
        return b - step / 2
      a = b
    return a
  m5 = dt.timedelta(minutes=5)
  nxt, prev = cross(now, m5), cross(now, -m5)
  frac = (now - prev) / (nxt - prev)
  return math.pi * frac + (0.0 if el(now) > 0 else math.pi)


def ambient(n, sunrise, sunset, paused):
  """First 16 features; None where a threshold is too close to call."""
  f = [0.0] * 16
  lat, lng = physics.offset_latlng(n['clat'], n['clng'], n['x'], n['y'])
  el, _ = physics.sun(lat, lng, n['date_time'])
  soc = n['battery_wh'] / n['capacity_wh']
  ratio = (n['pressure'] + max(n['superpressure'], 0.0)) / n['pressure']
  f[0] = clamp01((n['pressure'] - P_MIN) / (P_MAX - P_MIN))
  f[1] = soc
  f[2] = clamp01((el + 90.0) / 180.0)
  now, day = n['date_time'], dt.timedelta(days=1)
  if sunset < sunrise:
    a = math.pi * (now - (sunrise - day)) / (sunset - (sunrise - day))
  else:
    a = math.pi + math.pi * (now - (sunset - day)) / (sunrise - (sunset - day))
  f[3], f[4] = math.sin(a), math.cos(a)
  d = math.hypot(n['x'], n['y'])
  h = math.atan2(-n['x'], -n['y'])
  f[5], f[6] = math.sin(h), math.cos(h)
  f[7] = d / 1000.0 / (d / 1000.0 + 250.0)
  for i, c in enumerate(('UP', 'STAY', 'DOWN')):
    f[8 + i] = float(n['last'] == c)
  f[11], f[12] = float(paused), float(not paused)
  excess, tie = physics.excess_energy(n)
  f[13] = float(excess) if tie > 1e-7 else None
  w, tie = power_to_use(ratio, soc)
  f[14] = None if tie else clamp01((w - 100.0) / 200.0)
  f[15] = ratio
  return f


# ---------------------------------------------------- reachable pressures ---

def _stable_superpressure(p, n, atm, el, flux):
  """Superpressure when floating at ambient pressure p in heat balance."""
  t_amb = atm.at_pressure(p)[1]
  air = (p * physics.M_AIR * n['v0'] / (physics.R * t_amb) - n['envelope_mass']
         - n['payload_mass'] - physics.M_HE * n['mols_lift_gas']) / physics.M_AIR
  air = max(air, 0.0)
  def rate(t):
    return physics.heating_rate(n['v0'], n['envelope_mass'], t, t_amb, p, el,
                                flux, n['ir'])
  lo, hi = 120.0, 400.0
  for _ in range(60):
    mid = 0.5 * (lo + hi)
    if rate(mid) > 0:
      lo = mid
    else:
      hi = mid
  _, sp = physics.volume_superpressure(n['mols_lift_gas'] + air, lo, p, n['v0'],
                                       n['dv'])
  return sp


def pressure_range(n, atm):
  """Lowest and highest safe floating pressure, the least distance of any value
  looked at from a limit, and whether a limit had to be searched for; None if no
  pressure is safe."""
  lat, lng = physics.offset_latlng(n['clat'], n['clng'], n['x'], n['y'])
  el, flux = physics.sun(lat, lng, n['date_time'])
  lo_sp, hi_sp = 250.0, n['sp_max'] - 250.0
  floor = atm.pressure_at(50000 * physics.FT)
  col = [1000.0 + (floor - 1000.0) * i / 19 for i in range(20)]
  sp = {}
  def at(p):
    if p not in sp:
      sp[p] = _stable_superpressure(p, n, atm, el, flux)
    return sp[p]
  def ok(p):
    return lo_sp <= at(p) <= hi_sp
  pt = [p / atm.at_pressure(p)[1] for p in col]
  want = ((n['payload_mass'] + n['envelope_mass'] + n['mols_lift_gas'] *
           physics.M_HE) * physics.R / (physics.M_AIR * n['v0']))
  i = min(max(bisect.bisect(pt, want) - 1, 0), 18)
  top = col[i] + (want - pt[i]) / (pt[i + 1] - pt[i]) * (col[i + 1] - col[i])
  def search(start, cands):
    if ok(start):
      return start
    last = start
    for p in cands:
      if not ok(p):
        last = p
        continue
      bad, good = at(last), at(p)
      target = lo_sp if bad < lo_sp else hi_sp
      return last + (target - bad) / (good - bad) * (p - last)
    return None
  low = search(top, [p for p in col if p >= top])
  high = search(floor, [p for p in reversed(col) if p <= floor])
  if low is None or high is None:
    return None
  margin = min(min(abs(v - lo_sp), abs(v - hi_sp)) for v in sp.values())
  return low, high, margin, (low, high) != (top, floor)


def level_of(pressure):
  """(nearest level, distance of the choice to a tie in levels)."""
  x = (min(max(pressure, P_MIN), P_MAX) - P_MIN) / ((P_MAX - P_MIN) / 180.0)
  k = int(math.floor(x + 0.5))
  return min(k, 180), abs(x - math.floor(x) - 0.5)


def wind_triple(u, v, dev, x, y):
  """(uncertainty, angle error, magnitude); angle None when undecided."""
  mag = math.hypot(u, v)
  d = math.hypot(x, y)
  if d < 1e-5:
    ang = 0.0
  elif mag < 1e-5:
    ang = 1.0
  else:
    c = (u * -x + v * -y) / ((mag + 1e-5) * (d + 1e-5))
    ang = math.acos(min(max(c, -1.0), 1.0)) / math.pi
  if abs(d - 1e-5) < 1e-9 or abs(mag - 1e-5) < 1e-9:
    ang = None
  return dev, ang, mag / (mag + 30.0)
