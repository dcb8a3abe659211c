"""Wind fields used as the simulated weather (stand-ins at the public seams)."""
import math

_cache = {}


def classes():
  """Defines the stand-ins on top of the repo's abstract classes."""
  if _cache:
    return _cache
  import jax
  import numpy as np
  from balloon_learning_environment.env import grid_based_wind_field as gbwf
  from balloon_learning_environment.env import grid_wind_field_sampler as gws
  from balloon_learning_environment.env import wind_field
  from balloon_learning_environment.generative import vae
  from balloon_learning_environment.utils import units

  class Storm(wind_field.WindField):
    """Analytic, fast-changing wind: waves in place, pressure and time."""

    def __init__(self, speed=15.0, calm_noise=False):
      super().__init__()
      self.speed = speed
      self.p = np.zeros(12)

    def reset_forecast(self, key, date_time):
      self.p = np.asarray(jax.random.uniform(key, (12,))) * 2.0 - 1.0
      self.t0 = date_time

    def value(self, x, y, pressure, hours):
      p = self.p
      a = (2.0 * p[0] * x + 2.0 * p[1] * y) / 200e3 + p[2] * hours
      b = p[3] * 3.0 + pressure / (600.0 + 400.0 * p[4])
      c = (2.0 * p[5] * x - 2.0 * p[6] * y) / 150e3 + p[7] * hours * 0.5
      u = self.speed * (math.sin(a + b) + 0.5 * math.sin(c) + 0.4 * p[8])
      v = self.speed * (math.cos(c + b * 1.3) + 0.5 * math.sin(a) + 0.4 * p[9])
      return u, v

    def get_forecast(self, x, y, pressure, elapsed_time):
      u, v = self.value(x.meters, y.meters, float(pressure),
                        elapsed_time.total_seconds() / 3600.0)
      return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))

  class Layers(wind_field.WindField):
    """Steady wind that turns once around within the usual altitudes."""

    def __init__(self, speed=8.0):
      super().__init__()
      self.speed, self.phase = speed, 0.0

    def reset_forecast(self, key, date_time):
      self.phase = float(jax.random.uniform(key, ())) * 2 * math.pi

    def get_forecast(self, x, y, pressure, elapsed_time):
      a = self.phase + 2 * math.pi * (float(pressure) - 6700.0) / 4000.0
      return wind_field.WindVector(
          units.Velocity(mps=self.speed * math.cos(a)),
          units.Velocity(mps=self.speed * math.sin(a)))

    def get_ground_truth(self, x, y, pressure, elapsed_time):
      return self.get_forecast(x, y, pressure, elapsed_time)

  class Sampler(gws.GridWindFieldSampler):
    """A random smooth grid of the shape the trained decoder produces."""

    def __init__(self, speed=12.0):
      self.speed = speed
      self._shape = vae.FieldShape()
      self.samples = 0

    @property
    def field_shape(self):
      return self._shape

    def sample_field(self, key, date_time):
      self.samples += 1
      s = self._shape
      nx = len(s.latlng_grid_points())
      npr = len(s.pressure_grid_points())
      nt = len(s.time_grid_points())
      seed = [int(k) for k in np.asarray(
          jax.random.randint(key, (4,), 0, 2**31 - 1))]
      rng = np.random.Generator(np.random.PCG64(seed))
      out = np.zeros((nx, nx, npr, nt, 2), np.float32)
      gx = np.linspace(-1, 1, nx)[:, None, None, None]
      gy = np.linspace(-1, 1, nx)[None, :, None, None]
      gp = np.linspace(-1, 1, npr)[None, None, :, None]
      gt = np.linspace(-1, 1, nt)[None, None, None, :]
      for c in range(2):
        acc = 0.0
        for _ in range(4):
          f = rng.uniform(-4, 4, 4)
          ph = rng.uniform(0, 2 * np.pi)
          acc = acc + rng.uniform(0.2, 1.0) * np.sin(
              f[0] * gx + f[1] * gy + 2 * f[2] * gp + 2 * f[3] * gt + ph)
        out[..., c] = self.speed * acc
      return out

  for c in (Storm, Sampler, Layers):  # picklable
    c.__qualname__ = c.__name__
    globals()[c.__name__] = c
  _cache.update(Storm=Storm, Layers=Layers, Sampler=Sampler, wind_field=wind_field, gbwf=gbwf)
  return _cache


def make(kind, speed=None):
  c = classes()
  if kind == 'simple':
    return c['wind_field'].SimpleStaticWindField()
  if kind == 'grid':
    return c['gbwf'].GridBasedWindField(c['Sampler'](speed or 12.0))
  if kind == 'layers':
    return c['Layers'](speed or 8.0)
  if kind == 'storm':
    return c['Storm'](speed or 15.0)
  if kind in ('decoder', 'decoder_old'):
    weights()
    from balloon_learning_environment.env import generative_wind_field as gwf
    return (gwf.generative_wind_field_factory() if kind == 'decoder'
            else gwf.GenerativeWindField())
  raise ValueError(kind)


_weights = {}


def weights():
  """Points the loader of the decoder weights (not shipped) at random ones."""
  if 'path' in _weights:
    return
  import os
  import flax
  import gin
  import jax
  from balloon_learning_environment.generative import vae
  from balloon_learning_environment.models import models  # noqa: registers
  from sim import scratch
  params = vae.Decoder().init(jax.random.PRNGKey(7), jax.numpy.zeros(64))
  # Untrained output is a few cm/s; make it wind.
  params = jax.tree_util.tree_map(lambda a: a * 1.6, params)
  path = os.path.join(scratch.fresh(), 'decoder.msgpack')
  with open(path, 'wb') as f:
    f.write(flax.serialization.msgpack_serialize(
        flax.serialization.to_state_dict(
            jax.tree_util.tree_map(lambda a: __import__('numpy').asarray(a),
                                   params))))
  gin.bind_parameter('load_offlineskies22.path', path)
  _weights['path'] = path
