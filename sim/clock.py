"""The simulated wall clock: installed before the code under test is imported."""
import sys
import time

_real = {'time': time.time, 'time_ns': time.time_ns, 'monotonic': time.monotonic,
         'perf_counter': time.perf_counter, 'sleep': time.sleep}

real_time = _real['monotonic']


class Clock:

  def __init__(self):
    self.reset(0)

  def reset(self, base):
    self.now = 1_600_000_000.0 + float(base)
    self.reads = 0
    self.slept = 0.0

  def jump(self, seconds):
    self.now += seconds

  def read(self):
    self.reads += 1
    self.now += 1e-5
    return self.now


CLOCK = Clock()


_COMPILER = ('jax', 'jaxlib', 'absl', 'logging')


def _now():
  """Compilers and loggers, which work as caches happen to be, see it stand."""
  caller = sys._getframe(2).f_globals.get('__name__', '')
  if caller.split('.')[0] in _COMPILER:
    return CLOCK.now
  return CLOCK.read()


def _time():
  return _now()


def _time_ns():
  return int(_now() * 1e9)


def _sleep(seconds):
  CLOCK.slept += max(0.0, seconds)
  CLOCK.jump(max(0.0, seconds))


def install():
  time.time = _time
  time.time_ns = _time_ns
  time.sleep = _sleep
