"""Environment of every process that runs code under test."""
import os

REPO = os.environ.get('BLE_SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'


def child_env(hashseed='0'):
  """A fixed, minimal environment: nothing of the caller's leaks in."""
  env = {
      'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      'HOME': os.environ.get('HOME', '/root'),
      'LANG': 'C.UTF-8',
      'TZ': 'UTC',
      'PYTHONPATH': REPO + ':' + VERIF,
      'PYTHONDONTWRITEBYTECODE': '1',
      'PYTHONHASHSEED': str(hashseed),
      'PYTHONUNBUFFERED': '1',
      'JAX_PLATFORMS': 'cpu',
      'CUDA_VISIBLE_DEVICES': '',
      'TF_CPP_MIN_LOG_LEVEL': '3',
      'TF_ENABLE_ONEDNN_OPTS': '0',
      'TF_NUM_INTRAOP_THREADS': '1',
      'TF_NUM_INTEROP_THREADS': '1',
      'MPLBACKEND': 'Agg',
      'OMP_NUM_THREADS': '1',
      'OPENBLAS_NUM_THREADS': '1',
      'MKL_NUM_THREADS': '1',
      'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false '
                   'intra_op_parallelism_threads=1',
      'BLE_SIM_REPO': REPO,
  }
  for k in ('VERIF_SEED', 'VERIF_TIER', 'BLE_SIM_SCRATCH'):
    if k in os.environ:
      env[k] = os.environ[k]
  return env
