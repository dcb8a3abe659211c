"""Command line programs of the repo, each with flags of its own.

In reality every program is a process; here several are imported into one, so
the flags of each are taken out of the global registry after its import and put
back only while it runs.
"""
import contextlib
import importlib

from sim import core

_programs = {}


def program(name):
  """Imports a module that defines flags and a main function."""
  if name not in _programs:
    from absl import flags
    F = flags.FLAGS
    module = importlib.import_module(name)
    mine = {f.name: f for f in F.flags_by_module_dict().get(name, ())}
    if not mine:
      raise core.HarnessError(f'{name} defines no flags')
    for n in mine:
      delattr(F, n)
    _programs[name] = (module, mine)
  return _programs[name][0]


@contextlib.contextmanager
def _flags(name, argv):
  from absl import flags
  F = flags.FLAGS
  mine = _programs[name][1]
  clash = {}
  for n, f in mine.items():
    if n in F:
      clash[n] = F[n]
      delattr(F, n)
    f.unparse()
    F[n] = f
  was = F.is_parsed()
  try:
    rest = F([name] + list(argv), known_only=False)
    yield rest
  finally:
    for n, f in mine.items():
      f.unparse()
      delattr(F, n)
    for n, f in clash.items():
      F[n] = f
    if was:
      F.mark_as_parsed()


def run(name, argv):
  """Runs the program as its own process would be started."""
  import gin
  module = program(name)
  gin.clear_config()
  with _flags(name, argv) as rest:
    try:
      return module.main(rest)
    finally:
      gin.clear_config()


class Spaces:
  def __init__(self, n, shape):
    self.n, self.shape = n, shape


@contextlib.contextmanager
def gym_make(factory):
  """The environment the program gets from gym.make."""
  import gym
  real = gym.make
  gym.make = factory
  try:
    yield
  finally:
    gym.make = real


@contextlib.contextmanager
def registered(name, constructor, config=None):
  from balloon_learning_environment.agents import agent_registry
  reg = agent_registry.REGISTRY
  old = reg.get(name)
  reg[name] = (constructor, config)
  try:
    yield
  finally:
    if old is None:
      del reg[name]
    else:
      reg[name] = old
