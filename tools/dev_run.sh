#!/bin/bash
cd /verif; env -i $(/usr/bin/python3 -c "
import sys;sys.path.insert(0,'/verif')
from sim import bootenv
print(' '.join(f'{k}={v}' for k,v in bootenv.child_env().items() if ' ' not in v))") XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" /opt/venv/bin/python -W ignore /verif/tools/dev_run.py "$@"
