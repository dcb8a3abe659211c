"""Runs the check of one property: python3 -m sim.check <ID> [--tier T].

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 3: the harness
itself failed.
"""
import argparse
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from sim import bootenv
from sim import core

VERIF = bootenv.VERIF


def spawn(pid, tier, hashseed='0'):
  errf = open(os.path.join(VERIF, 'out', f'{pid}.worker.err'), 'ab')
  p = subprocess.Popen(
      [bootenv.PYTHON, '-W', 'ignore', '-m', 'sim.worker', pid, tier],
      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf,
      env=bootenv.child_env(hashseed), cwd='/', bufsize=0)
  p._buf, p._raw = '', b''
  errf.close()
  return p


def send(p, msg):
  try:
    p.stdin.write((json.dumps(msg) + '\n').encode())
  except (BrokenPipeError, OSError):
    pass


def ask(p, msg, timeout):
  """One request, one answer, from a worker used synchronously."""
  send(p, msg)
  return read_line(p, timeout)


def read_line(p, timeout):
  end = time.monotonic() + timeout
  while '\n' not in p._buf:
    left = end - time.monotonic()
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    if left <= 0 or not sel.select(left):
      return None
    if not pump(p):
      return None
  line, p._buf = p._buf.split('\n', 1)
  return json.loads(line)


def pump(p):
  """Reads what is there into the buffer of the process; False at the end."""
  data = os.read(p.stdout.fileno(), 1 << 16)
  p._raw += data
  # Lines are ASCII JSON.
  p._buf += p._raw.decode('ascii')
  p._raw = b''
  return bool(data)


def kill(p):
  try:
    p.kill()
    p.wait(10)
  except Exception:  # noqa
    pass


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings']
            if k['property'] == pid and k['status'] == 'known']


def run_batch(workers, assign, budget, hard, collect_lowest=True):
  """Runs the assigned (index, seed) lists on the workers."""
  results, errors = {}, []
  sel = selectors.DefaultSelector()
  active = {}
  for w, runs in zip(workers, assign):
    send(w, {'cmd': 'runs', 'runs': runs, 'budget': budget})
    active[w] = [i for i, _ in runs]
    sel.register(w.stdout, selectors.EVENT_READ, w)
  t0 = time.monotonic()
  first_bad = None
  t_bad = None
  while active:
    now = time.monotonic()
    if now - t0 > hard:
      errors.append(f'workers still running after {hard} s')
      break
    if t_bad is not None:
      pending = [w for w, idx in active.items()
                 if idx and min(idx) < first_bad]
      if not pending or now - t_bad > 20:
        break
    for key, _ in sel.select(1.0):
      w = key.data
      if not pump(w):
        sel.unregister(w.stdout)
        active.pop(w, None)
        errors.append(f'worker ended with {w.poll()}')
        continue
      while '\n' in w._buf:
        line, w._buf = w._buf.split('\n', 1)
        r = json.loads(line)
        if r.get('done'):
          sel.unregister(w.stdout)
          active.pop(w, None)
          continue
        results[r['i']] = r
        if w in active and r['i'] in active[w]:
          active[w].remove(r['i'])
        if not r['verdict']['ok']:
          if first_bad is None or r['i'] < first_bad:
            first_bad = r['i']
          if t_bad is None:
            t_bad = now
  return results, errors


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--runs', type=int, default=None)
  ap.add_argument('--workers', type=int, default=8)
  ap.add_argument('--wall', type=float, default=None)
  ap.add_argument('--no-evidence', action='store_true')
  a = ap.parse_args()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  pid = a.prop
  t0 = time.monotonic()
  sys.path.insert(0, VERIF)
  os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  errpath = os.path.join(VERIF, 'out', f'{pid}.worker.err')
  open(errpath, 'w').close()
  # Everything the workers write goes here.
  scratch = tempfile.mkdtemp(prefix='ble_sim_')
  os.environ['BLE_SIM_SCRATCH'] = scratch
  try:
    return main_in(a, tier, pid, t0)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def main_in(a, tier, pid, t0):
  meta = ask_meta(pid)
  nruns = a.runs or meta['runs'][tier]
  wall = a.wall or meta['wall'][tier]
  known = load_known(pid)
  nw = min(a.workers, os.cpu_count() or 8)
  workers = [spawn(pid, tier) for _ in range(nw)]
  # One more process under another hash seed re-executes a sample of the runs.
  twin = spawn(pid, tier, hashseed='4711')
  try:
    code = drive(a, tier, pid, meta, nruns, wall, known, workers, twin, t0)
  finally:
    for w in workers + [twin]:
      kill(w)
  return code


def ask_meta(pid):
  out = subprocess.run(
      [sys.executable, '-c',
       'import json,sys; sys.path.insert(0, %r)\n'
       'from sim import exec as ex\n'
       'p=ex.load_prop(%r)\n'
       'print(json.dumps({k:getattr(p,k) for k in ("runs","wall","real","stub",'
       '"rule","assumptions","cross_process","level","title","run_alarm")}))'
       % (VERIF, pid)], capture_output=True, text=True,
      env={'PATH': os.environ.get('PATH', ''), 'PYTHONDONTWRITEBYTECODE': '1'})
  if out.returncode:
    raise SystemExit(f'HARNESS-ERROR cannot load {pid}: {out.stderr}')
  return json.loads(out.stdout)


def drive(a, tier, pid, meta, nruns, wall, known, workers, twin, t0):
  for w in workers + [twin]:
    r = read_line(w, 240)
    if not r or not r.get('ready'):
      err = open(os.path.join(VERIF, 'out', f'{pid}.worker.err'),
                 errors='replace').read()[-3000:]
      print(f'HARNESS-ERROR property={pid} worker did not start: {r}\n{err}')
      return 3
  ids = [k['id'] for k in known]
  for w in workers + [twin]:
    send(w, {'cmd': 'known', 'known': ids})
  seeds = [(i, core.derive(a.seed, pid, i)) for i in range(nruns)]
  nw = len(workers)
  assign = [seeds[k::nw] for k in range(nw)]
  sample_n = min(len(seeds), max(2, meta['runs'][tier] // 12),
                 6 if tier == 'quick' else 48)
  stride = max(1, len(seeds) // sample_n)
  sample = seeds[::stride][:sample_n][::-1]
  t1 = time.monotonic()
  send(twin, {'cmd': 'runs', 'runs': sample, 'budget': wall})
  results, errors = run_batch(workers, assign, wall,
                              wall + meta['run_alarm'] + 30)
  run_wall = time.monotonic() - t1
  bad = sorted((i for i, r in results.items() if not r['verdict']['ok']))
  harness = [results[i] for i in bad if results[i]['verdict'].get('harness')]
  viol = [results[i] for i in bad if not results[i]['verdict'].get('harness')]

  # Digests of the twin process.
  twin_res = {}
  if not viol and not harness:
    while True:
      r = read_line(twin, max(5.0, wall + meta['run_alarm'] - run_wall))
      if r is None or r.get('done'):
        break
      twin_res[r['i']] = r
  mismatch = [i for i, r in twin_res.items()
              if i in results and results[i]['digest'] != r['digest']]
  if twin_res:
    for r in twin_res.values():
      if not r['verdict']['ok'] and not r['verdict'].get('harness'):
        if r['i'] not in results or results[r['i']]['verdict']['ok']:
          if not meta['cross_process']:
            viol.append(r)

  violation = None
  if viol:
    violation = minimise_and_save(pid, tier, viol[0], ids, a)
  elif mismatch and meta['cross_process']:
    violation = save_cross(pid, tier, results[mismatch[0]],
                           twin_res[mismatch[0]], a)

  known_hit = {}
  for r in results.values():
    for k, v in r.get('known_hit', {}).items():
      known_hit.setdefault(k, (r['seed'], v))

  if not a.no_evidence:
    write_evidence(a, tier, pid, meta, results, twin_res, mismatch, run_wall,
                   time.monotonic() - t0, errors, known, known_hit,
                   1 if violation else 0, nw)
  total = len(results)
  print(f'property={pid} tier={tier} seed={a.seed} runs={total}/{nruns} '
        f'checks={sum(r["checks"] for r in results.values())} '
        f'wall={time.monotonic() - t0:.1f}s '
        f'determinism_sample={len(twin_res)} mismatches={len(mismatch)}')
  for k in known:
    if k['id'] in known_hit:
      print(f'KNOWN-FINDING: property={pid} {k["id"]}: {k["what"]}')
  if violation:
    print(f'VIOLATION property={pid} replay={violation}')
    return 1
  if harness:
    print(f'HARNESS-ERROR property={pid} seed={harness[0]["seed"]}: '
          f'{harness[0]["verdict"]["msg"]}\n{harness[0]["verdict"].get("tb")}')
    return 3
  if errors and not total:
    print(f'HARNESS-ERROR property={pid}: {errors}')
    return 3
  if errors:
    # A worker that dies or never answers gives no verdict for its runs.
    print(f'HARNESS-ERROR property={pid}: {errors}')
    return 3
  return 0


def minimise_and_save(pid, tier, r, ids, a):
  """Minimises in a fresh process, saves, and replays in another one."""
  klass = r['verdict']['klass']
  plan, verdict, trace, n = r['plan'], r['verdict'], r['trace'], 0
  w = spawn(pid, tier)
  try:
    if (read_line(w, 240) or {}).get('ready') and klass != 'no-progress':
      send(w, {'cmd': 'known', 'known': ids})
      m = ask(w, {'cmd': 'minimise', 'plan': plan, 'klass': klass,
                  'budget': 60 if tier == 'quick' else 240}, 420)
      if m and not m['verdict']['ok']:
        plan, verdict, trace, n = (m['plan'], m['verdict'], m['trace'],
                                   m['executions'])
  finally:
    kill(w)
  path = os.path.join(VERIF, 'out', 'replays', f'{pid}-{r["seed"]}.json')
  os.makedirs(os.path.dirname(path), exist_ok=True)
  rec = {'property': pid, 'kind': 'plan', 'verif_seed': a.seed,
         'run_seed': r['seed'], 'run_index': r['i'], 'klass': klass,
         'message': verdict['msg'], 'traceback': verdict.get('tb'),
         'original_ops': r['n_ops'], 'minimised_ops': len(plan.get('ops', [])),
         'minimise_executions': n, 'plan': plan, 'trace_tail': trace}
  with open(path, 'w') as f:
    json.dump(rec, f, indent=1)
  again = subprocess.run([sys.executable, '-m', 'sim.replay', path],
                         cwd=VERIF, capture_output=True, text=True,
                         timeout=600)
  rec['replayed_in_fresh_process'] = again.returncode == 1
  with open(path, 'w') as f:
    json.dump(rec, f, indent=1)
  print(f'  {klass}: {verdict["msg"][:600]}')
  print(f'  ops {r["n_ops"]} -> {len(plan.get("ops", []))} after {n} '
        f'executions; replay in a fresh process reproduces it: '
        f'{rec["replayed_in_fresh_process"]}')
  return path


def save_cross(pid, tier, r1, r2, a):
  path = os.path.join(VERIF, 'out', 'replays', f'{pid}-cross-{r1["seed"]}.json')
  os.makedirs(os.path.dirname(path), exist_ok=True)
  rec = {'property': pid, 'kind': 'cross_process', 'verif_seed': a.seed,
         'run_seed': r1['seed'], 'run_index': r1['i'], 'tier': tier,
         'klass': 'cross-process-divergence',
         'message': 'the same run gives different results in two processes '
                    f'({r1["digest"]} and {r2["digest"]})'}
  with open(path, 'w') as f:
    json.dump(rec, f, indent=1)
  print('  cross-process-divergence: ' + rec['message'])
  return path


def write_evidence(a, tier, pid, meta, results, twin_res, mismatch, run_wall,
                   wall, errors, known, known_hit, nviol, nw):
  faults, probes, states = {}, {}, set()
  for r in results.values():
    for k, v in r['faults'].items():
      faults[k] = faults.get(k, 0) + v
    for k, v in r['probes'].items():
      probes[k] = probes.get(k, 0) + v
    states.update(r['states'])
  digests = {r['digest'] for r in results.values() if r['nontrivial']}
  samples = [results[i]['sample'] for i in sorted(results)
             if 'sample' in results[i]][:4]
  cov = {
      'evaluations': len(results),
      'distinct_nontrivial': len(digests),
      'rule': meta['rule'],
      'samples': samples,
      'simulated_runs_per_hour': round(len(results) / max(run_wall, 1e-9) * 3600),
      'simulated_seconds': round(sum(r['sim'] for r in results.values()), 1),
      'oracle_checks': sum(r['checks'] for r in results.values()),
      'trace_events': sum(r['events'] for r in results.values()),
      'operations': sum(r['n_ops'] for r in results.values()),
      'faults_injected': dict(sorted(faults.items())),
      'probes_hit': dict(sorted(probes.items())),
      'distinct_states': len(states),
      'distinct_states_measure': 'distinct abstract states (property-specific '
                                 'signature, see sim/props) over all runs',
      'distinct_interleavings': len(digests),
      'components_real': meta['real'],
      'components_stub': meta['stub'],
      'determinism': {
          'reexecuted_in_other_process_and_hashseed': len(twin_res),
          'digest_mismatches': len(mismatch), 'workers': nw},
      'known_findings_hit': {k: {'seed': v[0], 'what': str(v[1])[:300]}
                             for k, v in known_hit.items()},
      'worker_errors': errors,
  }
  ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': meta['level'],
        'coverage': cov, 'assumptions': meta['assumptions'],
        'wall_s': round(wall, 2), 'violations': nviol}
  path = os.path.join(VERIF, 'evidence', f'{pid}.json')
  with open(path + '.tmp', 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(path + '.tmp', path)


if __name__ == '__main__':
  sys.exit(main())
