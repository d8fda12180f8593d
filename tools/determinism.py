"""
Shows that a run is a pure function of (plan, code under test, PYTHONHASHSEED): the same seeds are simulated in separate processes,
in different orders and with other runs in between, and the hash chains over all I/O events have to be the same.
usage: determinism.py [FIRST] [COUNT]
"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(HERE), "sim")
first, count = (int(sys.argv[1]) if len(sys.argv) > 1 else 0), (int(sys.argv[2]) if len(sys.argv) > 2 else 40)
CODE = """
import sys; sys.path.insert(0, %r)
import runner
props = ["C%%02d" %% i for i in range(1, 24) if i != 22]
jobs = [(p, s) for p in props for s in range(%d, %d)]
if %d: jobs.reverse()
for p, s in jobs:
    out = runner.run(runner.make_plan(p, p, s), None)
    print(p, s, out.digest, out.sketch, out.events, len(out.violations), out.error is not None)
"""
bad = 0
for h in (1, 5):
    outs = []
    for rev in (0, 1):
        r = subprocess.run(["/opt/venv/bin/python", "-c", CODE % (SIM, first, first + count, rev)], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(h)), check=True)
        outs.append(sorted(r.stdout.splitlines()))
    diff = [a for a, b in zip(*outs) if a != b]
    bad += len(diff) + (len(outs[0]) != len(outs[1]))
    print(f"hash seed {h}: {len(outs[0])} runs, {len(diff)} differ", *diff[:3])
sys.exit(1 if bad else 0)
