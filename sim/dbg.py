import sys, time, traceback, collections
import env
import plan, engine
prop, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
t=env.real_monotonic()
hits=collections.Counter(); vio=collections.Counter(); ex={}; err=0; steps=0; ev=0
for s in range(a,b):
    p=plan.make_plan(s,prop)
    try:
        e=engine.run_plan(p, prop if len(sys.argv)>4 else None)
    except BaseException as x:
        if isinstance(x, KeyboardInterrupt): raise
        key=traceback.format_exc().strip().splitlines(); key=" | ".join(key[-3:])
        err+=1
        if ("E",key) not in ex: ex[("E",key)]=s; 
        vio[("E",key)]+=1
        continue
    for k,n in e.hits.items(): hits[k]+=n
    for k,n in e.world.stats.items(): hits["F:"+k]+=n
    ev+=e.world.events
    if e.violations:
        v=e.violations[0]
        vio[v.code]+=1
        ex.setdefault(v.code,(s,repr(v)[:700]))
dt=env.real_monotonic()-t
print(f"{b-a} runs {dt:.1f}s {(b-a)/dt:.1f}/s events {ev}")
for k,n in vio.most_common(12): print(n,k,ex[k])
if "-h" in sys.argv: print(sorted(hits.items()))
