"""Shrinks a failing plan: fewer ops (ddmin), then simpler ops and settings."""
import copy
import json

from sim import clock
from sim import exec as ex


def minimise(prop, plan, klass, known, budget):
  t0 = clock.real_time()
  n = [0]
  best = [plan, None, None]

  def over():
    return clock.real_time() - t0 > budget

  def fails(p):
    n[0] += 1
    ctx, verdict = ex.run_plan(prop, p, known)
    if (not verdict['ok']) and verdict.get('klass') == klass:
      best[:] = [p, ctx, verdict]
      return True
    return False

  fails(plan)
  if best[1] is None:
    ctx, verdict = ex.run_plan(prop, plan, known)
    return plan, ctx, verdict, n[0]

  def with_ops(ops):
    p = dict(best[0])
    p['ops'] = ops
    return p

  # Cut the tail first: everything after the failure is noise.
  ops = best[0].get('ops', [])
  lo, hi = 0, len(ops)
  while lo < hi and not over():
    mid = (lo + hi) // 2
    if fails(with_ops(ops[:mid])):
      hi = mid
    else:
      lo = mid + 1
  # ddmin.
  progress = True
  while progress and not over():
    progress = False
    ops = best[0].get('ops', [])
    chunk = max(1, len(ops) // 2)
    while chunk >= 1 and not over():
      i = 0
      while i < len(ops) and not over():
        cand = ops[:i] + ops[i + chunk:]
        if len(cand) < len(ops) and fails(with_ops(cand)):
          ops = cand
          progress = True
        else:
          i += chunk
      chunk //= 2
    for cand in prop.shrink(copy.deepcopy(best[0])):
      if over():
        break
      if json.dumps(cand) != json.dumps(best[0]) and fails(cand):
        progress = True
        break
  return best[0], best[1], best[2], n[0]
