"""replay.py FILE: repeats the minimised run of a replay file. Exit 1 if the violation is reproduced exactly, 0 if it is gone."""
import json
import os
import sys

with open(sys.argv[1], encoding="utf-8") as f:
    info = json.load(f)
if os.environ.get("PYTHONHASHSEED") != str(info["hashseed"]):
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED=str(info["hashseed"])))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import copy             # noqa: E402
import runner           # noqa: E402

out = runner.run(info["plan"], info["property"])
v = runner.first(out, info["property"])
traced = copy.deepcopy(info["plan"])
traced["_trace"] = []
try:
    runner.simulation(traced, info["property"]).run()
except BaseException:   # pylint: disable=broad-except
    pass
print(json.dumps({k: x for k, x in info["plan"].items() if k != "ops"}, ensure_ascii=False))
for o in info["plan"]["ops"]:
    print(json.dumps(o, ensure_ascii=False))
print("\n".join(traced["_trace"][-80:]))
print("event digest", out.digest, "(same as recorded)" if out.digest == info["digest"] else f"(recorded: {info['digest']})")
if v is None:
    print("not reproduced")
    sys.exit(0)
print(v)
sys.exit(1)
