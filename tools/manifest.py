"""Regenerates MANIFEST.json from properties.jsonl and the scenarios in sim/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim import exec as ex

NA = {
 'N01': 'Pure arithmetic on single values: no schedule, clock, I/O, randomness or other party takes part, so there is nothing for a simulator to control; simulated flights use the units throughout (E02-E05) but decide nothing about every pair of units.',
 'N04': 'Stateless functions of one argument; deciding them for every argument is an input-space question, not one of schedules or faults. E10 checks those values that flights reach.',
 'N06': 'A feed-forward network evaluated on one vector; trained weights are not shipped (the loaders fail in this sandbox), so there is neither a schedule to explore nor a trained model to run.',
}

def main():
  props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
  checks, na = [], []
  for p in props:
    pid = p['id']
    path = os.path.join(V, 'sim', 'props', pid + '.py')
    if os.path.exists(path):
      P = ex.load_prop(pid)
      checks.append({
        'property': pid,
        'quick_cmd': f'python3 -m sim.check {pid} --tier quick',
        'thorough_cmd': f'python3 -m sim.check {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'deterministic simulation with fault injection: ' + P.technique,
        'level': P.level,
        'level_note': P.note})
    elif pid in NA:
      na.append({'property': pid, 'reason': NA[pid]})
    else:
      na.append({'property': pid, 'reason': 'scenario not built yet'})
  m = {'version': 1,
       'setup_cmd': 'python3 -m sim.setup',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every seam the simulator needs exists already (constructor arguments, public state, gfile/open, jax keys) or is installed at import time in the worker process.'}
  json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
  open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

if __name__ == '__main__':
  main()
