"""Kernel of the simulator.

A *run* is the pure function

    seed --generate--> plan --execute--> (trace digest, counters, violation?)

`generate` draws every choice (configuration, operations, interleaving, faults
and their moments) from one PRNG seeded with the run's seed, and writes them
into an explicit plan (plain JSON).  `execute` drives the real code through the
plan under the simulator's clock, file system and schedule, and checks the
oracles.  A replay file is a plan; minimisation edits a plan.  Nothing else is
random: logging never draws from the PRNG and never reads a real clock.
"""
import hashlib
import json
import random
import struct


class Violation(Exception):
  """A property does not hold.  `klass` identifies what failed."""

  def __init__(self, klass, msg):
    super().__init__(f'{klass}: {msg}')
    self.klass = klass
    self.msg = msg


class HarnessError(Exception):
  """The harness, not the code under test, is at fault."""


class SimCrash(BaseException):
  """The simulated process is killed here (not catchable by `except Exception`)."""


def derive(*parts):
  """A 63-bit seed derived from the parts."""
  h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
  return struct.unpack('>Q', h[:8])[0] >> 1


def prng(*parts):
  return random.Random(derive(*parts))


class Ctx:
  """What one run records.  Pure bookkeeping; no randomness, no clock."""

  TRACE_KEEP = 400

  def __init__(self, known=()):
    self._hash = hashlib.sha256()
    self.trace = []
    self.ntrace = 0
    self.faults = {}
    self.probes = {}
    self.states = set()
    self.sim_seconds = 0.0
    self.checks = 0
    self.known = set(known)
    self.known_hit = {}

  def log(self, *event):
    line = json.dumps(event, default=_default, separators=(',', ':'))
    self._hash.update(line.encode())
    self._hash.update(b'\n')
    self.ntrace += 1
    self.trace.append(line)
    if len(self.trace) > self.TRACE_KEEP:
      del self.trace[:self.TRACE_KEEP // 2]

  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def state(self, *sig):
    """Counts a coarse abstract state as reached."""
    self.states.add(hashlib.blake2b(repr(sig).encode(), digest_size=6).hexdigest())

  def check(self, cond, klass, msg=''):
    self.checks += 1
    if not cond:
      raise Violation(klass, msg() if callable(msg) else msg)

  def finding(self, fid, klass, msg):
    """Reports a violation that may be listed as the known finding `fid`.

    Returns if it is listed (the caller goes on past it), raises otherwise.
    """
    if fid in self.known:
      self.known_hit.setdefault(fid, msg() if callable(msg) else msg)
      return
    raise Violation(klass, msg() if callable(msg) else msg)

  def digest(self):
    return self._hash.hexdigest()[:24]


def _default(o):
  try:
    import numpy as np
    if isinstance(o, np.ndarray):
      return hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest()[:16]
    if isinstance(o, np.generic):
      return o.item()
  except ImportError:
    pass
  if isinstance(o, bytes):
    return hashlib.sha256(o).hexdigest()[:16]
  if isinstance(o, set):
    return sorted(o)
  return str(o)


class Prop:
  """Base class of the property scenarios."""

  id = None
  title = ''
  level = 'exploration'
  runs = {'quick': 64, 'thorough': 2000}
  wall = {'quick': 150, 'thorough': 1500}
  run_alarm = 150          # seconds of real time before a run counts as hung
  real = []                # components that run real code
  stub = []                # components that run a stand-in
  rule = ''
  assumptions = []
  technique = 'seeded histories with injected faults against a reference model'
  cross_process = False    # compare digests between processes as a verdict
  findings = {}            # finding id -> plan that demonstrates it

  @property
  def note(self):
    return ('Seeded search over histories and faults, not exhaustive: the '
            'property held on every simulated run. ' +
            ' '.join(x[0].upper() + x[1:] + '.' for x in self.assumptions))

  def setup(self):
    """Imports the code under test (once per process)."""

  def directed(self):
    """Plans always executed first (rare conditions reached on purpose)."""
    return []

  def generate(self, rng, tier):
    raise NotImplementedError

  def execute(self, plan, ctx):
    raise NotImplementedError

  def shrink(self, plan):
    """Yields simpler plans, other than those with fewer ops."""
    return iter(())

  def nontrivial(self, plan, ctx):
    return True

  def sample(self, plan, ctx):
    ops = plan.get('ops', [])
    return {'seed': plan.get('seed'), 'cfg': plan.get('cfg'), 'n_ops': len(ops),
            'first_ops': ops[:6]}
