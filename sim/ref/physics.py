"""Reference model of the flight vehicle (pure Python, no code of the repo).

Written from the documented model: the NOAA solar calculator, the standard
atmosphere with lapse rates, the PE01 film heat balance, an ideal gas in an
elastic envelope, the altitude control system tables and an ideal battery.
"""
import bisect
import datetime as dt
import math

G = 9.80665
R = 8.3144621
M_AIR = 0.028964922481160
M_HE = 0.004002602
R_AIR = R / M_AIR
MIN_SOLAR_EL = -4.242

V0 = 1804.0
DV_DP = 0.0199
M_ENVELOPE = 68.5
M_PAYLOAD = 92.5
COD = 0.25
SP_MAX = 2380.0
NIGHT_W = 183.7
DAY_W = 120.4
VALVE_D = 0.04
VALVE_CD = 0.62
CAPACITY_WH = 3058.56
INITIAL_WH = 2905.6
FT = 0.3048


# ---------------------------------------------------------------- sun ------

def sun(lat, lng, t):
  """(elevation [deg], flux [W/m^2]) at latitude/longitude [rad], UTC time."""
  frac = (int(t.timestamp()) % 86400) / 86400.0
  y, m, d = t.year, t.month, t.day
  jd = (367.0 * y - math.floor(7.0 * (y + math.floor((m + 9.0) / 12.0)) / 4.0)
        - math.floor(3.0 * (math.floor((y + (m - 9.0) / 7.0) / 100.0) + 1.0) / 4.0)
        + math.floor(275.0 * m / 9.0) + d + 1721028.5)
  c = (jd + frac - 2451545.0) / 36525.0
  rad, sin, cos = math.radians, math.sin, math.cos
  l0 = rad(280.46646 + c * (36000.76983 + c * 0.0003032))
  m0 = rad(357.52911 + c * (35999.05029 - 0.0001537 * c))
  obl = rad(23.0 + (26.0 + (21.448 - c * (46.815 + c * (0.00059 - c * 0.001813))
                            ) / 60.0) / 60.0)
  omega = rad(125.04 - 1934.136 * c)
  obl += rad(0.00256 * cos(omega))
  vy = math.tan(obl / 2.0)**2
  ecc = 0.016708634 - c * (0.000042037 + 0.0000001267 * c)
  eot = math.degrees(4.0 * (
      vy * sin(2 * l0) - 2.0 * ecc * sin(m0)
      + 4.0 * ecc * vy * sin(m0) * cos(2 * l0) - 0.5 * vy * vy * sin(4 * l0)
      - 1.25 * ecc * ecc * sin(2 * m0)))
  ha = rad(math.fmod(1440.0 * frac + eot + 4.0 * math.degrees(lng), 1440.0)) / 4.0
  ha = ha + math.pi if ha < 0 else ha - math.pi
  center = rad(sin(m0) * (1.914602 - c * (0.004817 + 0.000014 * c))
               + sin(2 * m0) * (0.019993 - 0.000101 * c) + sin(3 * m0) * 0.000289)
  app = l0 + center - rad(0.00569 - 0.00478 * sin(omega))
  decl = math.asin(sin(obl) * sin(app))
  zen = math.acos(max(-1.0, min(1.0, sin(lat) * sin(decl)
                                + cos(lat) * cos(decl) * cos(ha))))
  el = 90.0 - math.degrees(zen)
  if el > 85.0:
    refr = 0.0
  elif el > 5.0:
    tn = math.tan(rad(el))
    refr = 58.1 / tn - 0.07 / tn**3 + 0.000086 / tn**5
  elif el > -0.575:
    refr = 1735.0 + el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711)))
  else:
    refr = -20.772 / math.tan(rad(el))
  flux = 1366.0 * (1 + 0.5 * (((1 + ecc) / (1 - ecc))**2 - 1) * cos(m0))
  return el + refr / 3600.0, flux


def attenuation(el, p):
  if el < MIN_SOLAR_EL:
    return 0.0
  s = 614.0 * math.sin(math.radians(el))
  airmass = 0.34764 * (p / 101325.0) * (math.sqrt(1229.0 + s * s) - s)
  return 0.5 * (math.exp(-0.65 * airmass) + math.exp(-0.95 * airmass))


def _shadow(el, h):
  limit = math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
  return 0.4392 if el >= limit else 1.0


def solar_watts(el, p):
  return 210.0 * attenuation(el, p) * (
      4 * math.cos(math.radians(el - 35)) * _shadow(el, 3.3)
      + 2 * math.cos(math.radians(el - 65)) * _shadow(el, 2.7))


def offset_latlng(lat, lng, x, y):
  """Great-circle destination from (lat, lng) [rad] over (x, y) [m]."""
  a = math.hypot(x, y) / 6371000.0
  th = math.atan2(x, y)
  sl = (math.cos(a) * math.sin(lat) + math.sin(a) * math.cos(lat) * math.cos(th))
  dl = math.atan2(math.sin(a) * math.cos(lat) * math.sin(th),
                  math.cos(a) - math.sin(lat) * sl)
  lat2 = math.asin(max(-1.0, min(1.0, sl)))
  lng2 = math.remainder(lng + dl, 2 * math.pi)
  return lat2, lng2


# --------------------------------------------------------- atmosphere ------

class Atmosphere:
  """U.S. standard atmosphere with an interpolated lapse-rate profile."""
  H = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0, 85000.0]
  LOW = [-0.007, 0.006, 0.001, 0.0028, 0.0, -0.0028, -0.002]
  HIGH = [-0.0058, 0.005, 0.001, 0.0028, 0.0, -0.0028, -0.002]

  def __init__(self, alpha):
    self.alpha = alpha
    self.L = [(1 - alpha) * a + alpha * b for a, b in zip(self.LOW, self.HIGH)]
    self.T = [300.0]
    self.P = [108870.8213]
    for i, l in enumerate(self.L):
      dh = self.H[i + 1] - self.H[i]
      self.T.append(self.T[-1] + l * dh)
      if l == 0.0:
        self.P.append(self.P[-1] * math.exp(-G * dh / (R_AIR * self.T[i])))
      else:
        self.P.append(self.P[-1] * (self.T[i + 1] / self.T[i])**(-G / (R_AIR * l)))

  @classmethod
  def of(cls, atmosphere, units):
    """The reference atmosphere equal to a sampled one (one public query)."""
    t = atmosphere.at_height(units.Distance(m=10000.0)).temperature
    lapse = (t - 300.0) / 10610.0
    return cls((lapse - cls.LOW[0]) / (cls.HIGH[0] - cls.LOW[0]))

  def at_pressure(self, p):
    """(height [m], temperature [K])."""
    for i, l in enumerate(self.L):
      if p > self.P[i + 1]:
        if l == 0.0:
          h = -R_AIR * self.T[i] / G * math.log(p / self.P[i]) + self.H[i]
        else:
          h = ((p / self.P[i])**(-R_AIR * l / G) - 1) * self.T[i] / l + self.H[i]
        return h, self.T[i] + l * (h - self.H[i])
    raise ValueError(p)

  def pressure_at(self, h):
    for i, l in enumerate(self.L):
      if h < self.H[i + 1]:
        t = self.T[i] + l * (h - self.H[i])
        if l == 0.0:
          return self.P[i] * math.exp(-G * (h - self.H[i]) / (R_AIR * t))
        return self.P[i] * (t / self.T[i])**(-G / (R_AIR * l))
    raise ValueError(h)


# --------------------------------------------------------------- heat ------

def _total_absorptivity(a, r=0.0291):
  return a * (1.0 + (1.0 - a - r) / (1.0 - r))


def _absorptivity_ir(t):
  return 0.04587 + 0.000232 * (t - 210.0)


def heating_rate(volume, mass, t_int, t_amb, p, el, flux, ir):
  """d(internal temperature)/dt [K/s]."""
  sigma = 0.000000056704
  r = (3 * volume / (4 * math.pi))**(1 / 3)
  area = 4 * math.pi * r * r
  q_sun = flux * attenuation(el, p) * 0.25 * area * _total_absorptivity(0.01435)
  q_earth = ir * 0.4605 * area * _total_absorptivity(
      _absorptivity_ir((ir / sigma)**0.25))
  q_out = sigma * t_int**4 * area * _total_absorptivity(_absorptivity_ir(t_int))
  mu = 1.458e-6 * t_amb**1.5 / (t_amb + 110.4)
  k = 0.0241 * (t_amb / 273.15)**0.9
  pr = 0.804 - 3.25e-4 * t_amb
  rho = p * M_AIR / (R * t_amb)
  gr = 9.80665 * rho**2 * (2 * r)**3 / (t_amb * mu**2) * abs(t_amb - t_int)
  ra = pr * gr
  nu = 2 + 0.457 * ra**0.25 + (1 + 2.69e-8 * ra)**(1.0 / 12.0)
  q_conv = area * (nu * k / (2 * r)) * (t_amb - t_int)
  return (q_sun + q_earth + q_conv - q_out) / (1500.0 * mass)


# ----------------------------------------------------------------- gas -----

def volume_superpressure(mols, t_int, p, v0=V0, dv=DV_DP):
  unconstrained = mols * R * t_int / p
  if unconstrained <= v0:
    return unconstrained, 0.0
  b = -(v0 - dv * p)
  c = -dv * unconstrained * p
  v = 0.5 * (-b + math.sqrt(b * b - 4 * c))
  return v, p * unconstrained / v - p


_PR = [1.0, 1.05, 1.2, 1.25, 1.35]
_PW = [100.0, 100.0, 300.0, 400.0, 400.0]


def acs_watts(ratio):
  i = min(max(bisect.bisect_right(_PR, ratio) - 1, 0), len(_PR) - 2)
  f = (ratio - _PR[i]) / (_PR[i + 1] - _PR[i])
  return _PW[i] + f * (_PW[i + 1] - _PW[i])


_FLAT = [0.4, 0.4, 0.3, 0.2, 0.2, 0.00000, 0.00000, 0.00000, 0.00000,
         0.00000, 0.00000, 0.00000, 0.00000, 0.4, 0.3, 0.3, 0.30, 0.25,
         0.23, 0.20, 0.15, 0.12, 0.10, 0.00000, 0.00000, 0.00000,
         0.00000, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15,
         0.13, 0.12, 0.11, 0.00000, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20,
         0.20, 0.20, 0.18, 0.16, 0.15, 0.13]
# The table is written as one row of 13 pressure ratios per power (100..400 W).
EFF_DOCUMENTED = [_FLAT[13 * j:13 * j + 13] for j in range(4)]
# Handed to interp2d as a flat array it is read the other way round (finding
# E04-acs-table): as one column of four powers per pressure ratio.
EFF_SHIPPED = [[_FLAT[4 * i + j] for i in range(13)] for j in range(4)]


def fan_efficiency(ratio, watts, table):
  x = min(max((ratio - 1.05) / 0.025, 0.0), 12.0)
  y = min(max((watts - 100.0) / 100.0, 0.0), 3.0)
  i, j = min(int(x), 11), min(int(y), 2)
  fx, fy = x - i, y - j
  return ((1 - fy) * ((1 - fx) * table[j][i] + fx * table[j][i + 1])
          + fy * ((1 - fx) * table[j + 1][i] + fx * table[j + 1][i + 1]))


# -------------------------------------------------------------- stride -----

def stride(s, wind, atm, action, seconds=10.0, table=EFF_DOCUMENTED):
  """One physics stride. `s` is a plain-number state (see flight.numbers)."""
  n = dict(s)
  dt_s = seconds
  n['x'] = s['x'] + wind[0] * dt_s
  n['y'] = s['y'] + wind[1] * dt_s
  p, v = s['pressure'], s['envelope_volume']
  rho = p * M_AIR / (R * s['ambient_temperature'])
  drag = s['cod'] * v**(2.0 / 3.0)
  mass = (M_HE * s['mols_lift_gas'] + M_AIR * s['mols_air']
          + s['envelope_mass'] + s['payload_mass'])
  net = rho * v - mass
  sign = 1.0 if net >= 0 else -1.0
  dh = sign * math.sqrt(abs(2 * net * G / (rho * drag)))
  h0, _ = atm.at_pressure(p)
  h1, _ = atm.at_pressure(p + sign)
  n['pressure'] = p + sign / (h1 - h0) * dh * dt_s
  lat, lng = offset_latlng(s['clat'], s['clng'], s['x'], s['y'])
  el, flux = sun(lat, lng, s['date_time'])
  n['ambient_temperature'] = atm.at_pressure(p)[1]
  n['internal_temperature'] = s['internal_temperature'] + dt_s * heating_rate(
      v, s['envelope_mass'], s['internal_temperature'],
      s['ambient_temperature'], p, el, flux, s['ir'])
  n['envelope_volume'], n['superpressure'] = volume_superpressure(
      s['mols_lift_gas'] + s['mols_air'], s['internal_temperature'], p,
      s['v0'], s['dv'])
  if n['superpressure'] > s['sp_max']:
    n['status'] = 'BURST'
  if n['superpressure'] <= 0.0:
    n['status'] = 'ZEROPRESSURE'
  if action == 'UP':
    n['acs_watts'] = 0.0
    density = (s['superpressure'] + p) * M_AIR / (R * s['internal_temperature'])
    n['acs_mass_flow'] = -VALVE_CD * math.pi * s['valve']**2 / 4.0 * math.sqrt(
        max(0.0, 2.0 * s['superpressure'] * density))
  elif action == 'DOWN':
    ratio = (p + max(s['superpressure'], 0.0)) / p
    n['acs_watts'] = acs_watts(ratio)
    n['acs_mass_flow'] = (fan_efficiency(ratio, n['acs_watts'], table)
                          * n['acs_watts'] / 3600.0)
  else:
    n['acs_watts'] = 0.0
    n['acs_mass_flow'] = 0.0
  n['mols_air'] = max(0.0, s['mols_air'] + n['acs_mass_flow'] / M_AIR * dt_s)
  day = el > MIN_SOLAR_EL
  n['solar_watts'] = solar_watts(el, p) if day else 0.0
  n['load_watts'] = (s['day_w'] if day else s['night_w']) + n['acs_watts']
  wh = s['battery_wh'] + (n['solar_watts'] - n['load_watts']) * dt_s / 3600.0
  n['battery_wh'] = min(max(wh, 0.0), s['capacity_wh'])
  if n['battery_wh'] <= 0.0:
    n['status'] = 'OUT_OF_POWER'
  n['date_time'] = s['date_time'] + dt.timedelta(seconds=dt_s)
  n['elapsed'] = s['elapsed'] + dt_s
  n['_el'] = el
  return n


def step(s, wind, atm, action, seconds=180, table=EFF_DOCUMENTED, stop=True):
  """A control step: strides until done or failed. Returns (state, strides)."""
  k = 0
  for k in range(1, int(seconds) // 10 + 1):
    s = stride(s, wind, atm, action, table=table)
    if stop and s['status'] != 'OK':
      break
  return s, k


def excess_energy(s):
  """(whether there is excess energy, distance of the decision to a tie)."""
  lat, lng = offset_latlng(s['clat'], s['clng'], s['x'], s['y'])
  el, _ = sun(lat, lng, s['date_time'])
  w = solar_watts(el, s['pressure'])
  soc = s['battery_wh'] / s['capacity_wh']
  tie = min(abs(w - s['day_w']), abs(soc - 0.99))
  return w > s['day_w'] and soc > 0.99, tie
