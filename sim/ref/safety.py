"""Reference models of the three safety layers (written from the property)."""
import datetime as dt

FT = 0.3048


class Envelope:
  """Latches low/high when a buffer is entered; releases past the hysteresis."""

  def __init__(self, sp_max):
    self.sp_max = sp_max
    self.side = None   # 'low' / 'high' while descending is withheld

  def action(self, a, sp):
    top = self.sp_max
    if sp < 150:
      self.side = 'low'
      return 'UP'
    if sp < 250:
      self.side = 'low'
    elif sp < 300:
      if self.side != 'low':
        self.side = None
    elif sp < top - 300:
      self.side = None
    elif sp < top - 250:
      if self.side != 'high':
        self.side = None
    elif sp < top - 150:
      self.side = 'high'
    else:
      self.side = 'high'
      return 'UP'
    return 'STAY' if self.side and a == 'DOWN' else a

  @property
  def paused(self):
    return self.side is not None


class Altitude:

  def __init__(self):
    self.latched = False

  def action(self, a, height_m):
    if height_m < 50000 * FT:
      self.latched = True
      return 'UP'
    if height_m < 50500 * FT:
      self.latched = True
    elif height_m >= 51000 * FT:
      self.latched = False
    return 'STAY' if self.latched and a == 'DOWN' else a

  @property
  def paused(self):
    return self.latched

  @staticmethod
  def tie(height_m):
    return min(abs(height_m - v * FT) for v in (50000, 50500, 51000)) < 1e-5


class Power:
  """Knows one sunrise and one sunset; later ones follow every 24 hours."""

  def __init__(self, sunrise, sunset):
    self.sunrise = sunrise + dt.timedelta(minutes=30)
    self.sunset = sunset
    self.paused = False

  @staticmethod
  def _next(t0, now):
    day = dt.timedelta(days=1)
    while t0 < now:
      t0 += day
    return t0

  def action(self, a, now, night_w, charge_wh, capacity_wh):
    sunrise = self._next(self.sunrise, now)
    sunset = self._next(self.sunset, now)
    if sunset < sunrise:       # by day
      if not (self.paused and charge_wh / capacity_wh < 0.05):
        self.paused = False
        return a
    elif not self.paused:      # by night, not yet restricted
      need = night_w * (sunrise - now).total_seconds() / 3600.0
      if (charge_wh - need) / capacity_wh < 0.025:
        self.paused = True
    return 'STAY' if self.paused and a == 'DOWN' else a

  def tie(self, now, night_w, charge_wh, capacity_wh):
    sunrise = self._next(self.sunrise, now)
    need = night_w * (sunrise - now).total_seconds() / 3600.0
    return (abs((charge_wh - need) / capacity_wh - 0.025) < 1e-9
            or abs(charge_wh / capacity_wh - 0.05) < 1e-9)
