"""Worker process: executes runs of one property.

Reads one JSON request per line on stdin, answers one JSON line per run on the
descriptor it inherited as stdout; everything the code prints goes to stderr.
"""
import json
import os
import sys

from sim import clock
from sim import core
from sim import exec as ex
from sim import minimise


def main():
  out = os.fdopen(os.dup(1), 'w', buffering=1)
  os.dup2(2, 1)
  pid, tier = sys.argv[1], sys.argv[2]
  prop = ex.load_prop(pid)
  ex.boot(prop)
  out.write(json.dumps({'ready': True}) + '\n')
  known = []
  for line in sys.stdin:
    req = json.loads(line)
    if req['cmd'] == 'known':
      known = req['known']
    elif req['cmd'] == 'runs':
      t0 = clock.real_time()
      for i, seed in req['runs']:
        if clock.real_time() - t0 > req['budget']:
          break
        plan = make_plan(prop, i, seed, tier)
        t1 = clock.real_time()
        ctx, verdict = ex.run_plan(prop, plan, known)
        out.write(json.dumps(summary(prop, i, plan, ctx, verdict,
                                     clock.real_time() - t1)) + '\n')
        if not verdict['ok']:
          break
      out.write(json.dumps({'done': True}) + '\n')
    elif req['cmd'] == 'plan':
      ctx, verdict = ex.run_plan(prop, req['plan'], known)
      out.write(json.dumps(summary(prop, -1, req['plan'], ctx, verdict, 0,
                                   full=True)) + '\n')
    elif req['cmd'] == 'minimise':
      plan, ctx, verdict, n = minimise.minimise(
          prop, req['plan'], req['klass'], known, req['budget'])
      s = summary(prop, -1, plan, ctx, verdict, 0, full=True)
      s['executions'] = n
      out.write(json.dumps(s) + '\n')


def make_plan(prop, i, seed, tier):
  directed = prop.directed()
  if i < len(directed):
    plan = json.loads(json.dumps(directed[i]))
    plan.setdefault('seed', seed)
    plan['directed'] = i
    return plan
  plan = prop.generate(core.prng(prop.id, seed), tier)
  plan['seed'] = seed
  # A plan is what a replay file can hold.
  return json.loads(json.dumps(plan))


def summary(prop, i, plan, ctx, verdict, wall, full=False):
  s = {'i': i, 'seed': plan.get('seed'), 'verdict': verdict,
       'digest': ctx.digest(), 'faults': ctx.faults, 'probes': ctx.probes,
       'states': sorted(ctx.states)[:4096], 'sim': ctx.sim_seconds,
       'checks': ctx.checks, 'events': ctx.ntrace, 'wall': wall,
       'known_hit': ctx.known_hit,
       'nontrivial': bool(verdict['ok'] and prop.nontrivial(plan, ctx)),
       'n_ops': len(plan.get('ops', []))}
  if i >= 0 and i < 64:
    s['sample'] = prop.sample(plan, ctx)
  if full or not verdict['ok']:
    s['plan'] = plan
    s['trace'] = ctx.trace[-60:]
  return s


if __name__ == '__main__':
  main()
