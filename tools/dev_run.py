import sys,json,time
sys.path.insert(0,'/verif')
from sim import exec as ex, worker, core, check
pid=sys.argv[1]; n=int(sys.argv[2]); tier='quick'
p=ex.load_prop(pid); ex.boot(p)
known=[k['id'] for k in check.load_known(pid)]
import collections
from sim import clock
pr=collections.Counter()
for i in range(n):
    seed=core.derive(int(sys.argv[3]) if len(sys.argv)>3 else 1,pid,i)
    plan=worker.make_plan(p,i,seed,tier)
    t=clock.real_time()
    ctx,v=ex.run_plan(p,plan,known)
    print(i,seed,round(clock.real_time()-t,2),len(plan.get('ops',[])),ctx.checks,ctx.ntrace,len(ctx.states),v if not v['ok'] else 'ok', ctx.known_hit or '')
    if not v['ok']:
        print(v.get('tb')); print('\n'.join(x[:300] for x in ctx.trace[-6:]));
        if v.get('harness'): break
    pr.update(ctx.probes); pr.update({'F:'+k:c for k,c in ctx.faults.items()})
print(dict(pr))
