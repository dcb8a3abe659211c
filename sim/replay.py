"""Replays a saved violation: python3 -m sim.replay FILE (exit 1: reproduced)."""
import json
import os
import shutil
import sys
import tempfile

from sim import bootenv
from sim import check


def main():
  if os.environ.get('BLE_SIM_SCRATCH'):
    return replay()
  scratch = tempfile.mkdtemp(prefix='ble_sim_')
  os.environ['BLE_SIM_SCRATCH'] = scratch
  try:
    return replay()
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def replay():
  sys.path.insert(0, bootenv.VERIF)
  with open(sys.argv[1]) as f:
    rec = json.load(f)
  pid = rec['property']
  os.makedirs(os.path.join(bootenv.VERIF, 'out'), exist_ok=True)
  known = [k['id'] for k in check.load_known(pid)]
  if rec['kind'] == 'cross_process':
    digests = []
    for hs in ('0', '4711'):
      w = check.spawn(pid, rec['tier'], hs)
      try:
        check.read_line(w, 240)
        check.send(w, {'cmd': 'known', 'known': known})
        r = check.ask(w, {'cmd': 'runs', 'budget': 600, 'runs': [
            [rec['run_index'], rec['run_seed']]]}, 900)
        digests.append(r['digest'])
      finally:
        check.kill(w)
    print(digests)
    if len(set(digests)) > 1:
      print(f'VIOLATION property={pid} replay={sys.argv[1]}')
      return 1
    return 0
  w = check.spawn(pid, 'quick')
  try:
    if not (check.read_line(w, 240) or {}).get('ready'):
      print('HARNESS-ERROR worker did not start')
      return 3
    check.send(w, {'cmd': 'known', 'known': known})
    r = check.ask(w, {'cmd': 'plan', 'plan': rec['plan']}, 600)
  finally:
    check.kill(w)
  v = r['verdict']
  for t in r['trace'][-30:]:
    print('  ' + t[:300])
  print(json.dumps(v)[:1500])
  if not v['ok'] and not v.get('harness') and v['klass'] == rec['klass']:
    print(f'VIOLATION property={pid} replay={sys.argv[1]}')
    return 1
  return 3 if v.get('harness') else 0


if __name__ == '__main__':
  sys.exit(main())
