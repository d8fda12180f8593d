import sys, json
import env
import plan, engine
prop, s = sys.argv[1], int(sys.argv[2])
p=plan.make_plan(s,prop); p["_trace"]=[]
orig=engine.Engine.run_op
def run_op(self,spec):
    p["_trace"].append(f"== step {self.step} {json.dumps({k:v for k,v in spec.items()})[:600]}")
    return orig(self,spec)
engine.Engine.run_op=run_op
e=engine.run_plan(p, None)
n=next((i for i,l in enumerate(p["_trace"]) if "VIOLATION" in l), len(p["_trace"]))
k=int(sys.argv[3]) if len(sys.argv)>3 else 60
print(json.dumps(p["cfg"])); [print(i,json.dumps(x)) for i,x in enumerate(p["nodes"])]
print("\n".join(p["_trace"][max(0,n-k):n+2]))
for v in e.violations[:4]: print(v)
for n in e.world.nodes: print(n.idx,n.jid,n.own_id,n.loaded)
