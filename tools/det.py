"""Runs listed plans in one process and dumps traces: det.py ID seed out i j k ..."""
import sys, pickle
sys.path.insert(0, '/verif')
from sim import check, core, worker
from sim import exec as ex
pid, seed, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
p = ex.load_prop(pid)
ex.boot(p)
known = [k['id'] for k in check.load_known(pid)]
res = {}
for i in map(int, sys.argv[4:]):
  plan = worker.make_plan(p, i, core.derive(seed, pid, i), 'quick')
  ctx, v = ex.run_plan(p, plan, known)
  res[i] = (ctx.digest(), list(ctx.trace), v['ok'])
pickle.dump(res, open(out, 'wb'))
