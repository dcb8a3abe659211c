"""Runs plans inside a worker process and classifies what happens."""
import gc
import importlib
import os
import random
import signal
import sys
import traceback
import warnings

from sim import bootenv
from sim import clock
from sim import core


def load_prop(pid):
  mod = importlib.import_module(f'sim.props.{pid}')
  return mod.PROP


def boot(prop):
  """Installs the seams, then imports the code under test from the repo."""
  warnings.simplefilter('ignore')
  warnings.warn = lambda *a, **k: None
  os.umask(0o022)
  clock.install()
  sys.path.insert(0, bootenv.REPO)
  import logging
  logging.disable(logging.CRITICAL)
  import numpy as np
  np.seterr(all='ignore')
  import balloon_learning_environment as ble
  path = os.path.realpath(list(ble.__path__)[0])
  if not path.startswith(os.path.realpath(bootenv.REPO) + os.sep):
    raise core.HarnessError(f'code under test imported from {path}')
  prop.setup()
  gc.collect()
  gc.freeze()


class Hang(BaseException):
  pass


def _alarm(_sig, _frm):
  raise Hang()


def from_repo(tb):
  """Whether the exception was raised by or below a frame of the repo."""
  repo = os.path.realpath(bootenv.REPO) + os.sep
  deepest_harness = -1
  deepest_repo = -1
  for i, fr in enumerate(traceback.extract_tb(tb)):
    fn = os.path.realpath(fr.filename)
    if fn.startswith(repo):
      deepest_repo = i
    elif fn.startswith(bootenv.VERIF + os.sep):
      deepest_harness = i
  if deepest_repo < 0:
    return False
  # A harness stub called by the repo that itself fails is a harness error.
  return deepest_repo > deepest_harness


def run_plan(prop, plan, known=()):
  """Executes one plan. Returns (ctx, verdict dict)."""
  import numpy as np
  ctx = core.Ctx(known)
  seed = plan.get('seed', 0)
  clock.CLOCK.reset(seed % 10_000_000)
  random.seed(seed)
  np.random.seed(seed % (2**32))
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(int(prop.run_alarm))
  verdict = {'ok': True}
  try:
    prop.execute(plan, ctx)
  except core.Violation as v:
    verdict = {'ok': False, 'klass': v.klass, 'msg': v.msg[:2000]}
  except core.HarnessError as e:
    verdict = {'ok': False, 'harness': True, 'msg': repr(e)[:2000],
               'tb': traceback.format_exc()[-3000:]}
  except core.SimCrash:
    verdict = {'ok': False, 'harness': True, 'msg': 'SimCrash escaped',
               'tb': traceback.format_exc()[-3000:]}
  except Hang:
    verdict = {'ok': False, 'klass': 'no-progress',
               'msg': f'run did not finish within {prop.run_alarm} s '
                      '(bounded liveness)',
               'tb': traceback.format_exc()[-3000:]}
  except KeyboardInterrupt:
    raise
  except BaseException as e:  # noqa
    tb = traceback.format_exc()[-3000:]
    if from_repo(e.__traceback__):
      verdict = {'ok': False, 'klass': f'exception:{type(e).__name__}',
                 'msg': f'{type(e).__name__}: {e}'[:1500], 'tb': tb}
    else:
      verdict = {'ok': False, 'harness': True,
                 'msg': f'{type(e).__name__}: {e}'[:1500], 'tb': tb}
  finally:
    signal.alarm(0)
  if not verdict['ok']:
    ctx.log('VERDICT', verdict.get('klass', 'harness'))
  collect()
  return ctx, verdict


_runs = [0]


def collect():
  """Frees the garbage of a run without walking all libraries every time."""
  gc.collect()
  _runs[0] += 1
  if _runs[0] <= 3 or _runs[0] % 200 == 0:
    gc.freeze()
