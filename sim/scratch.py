"""Scratch directories of a worker process: the only place it may write."""
import atexit
import os
import shutil
import tempfile

_root = None
_count = 0


def root():
  global _root
  if _root is None:
    base = os.environ.get('BLE_SIM_SCRATCH')
    if not (base and os.path.isdir(base)):
      base = tempfile.gettempdir()
    _root = tempfile.mkdtemp(prefix='ble_sim_w', dir=base)
    atexit.register(shutil.rmtree, _root, True)
  return _root


def fresh():
  """A new empty directory."""
  global _count
  _count += 1
  d = os.path.join(root(), f'd{_count}')
  os.makedirs(d)
  return d


def drop(d):
  d = os.path.realpath(d)
  if not d.startswith(os.path.realpath(root()) + os.sep):
    raise ValueError(f'{d} is not a scratch directory')
  shutil.rmtree(d, ignore_errors=True)
