"""
Development helper: run the check of its property (or all checks, --all) against planted bugs, each in a scratch copy of /repo.
usage: bugs.py [--all] [ID...]
"""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
for i in ids:
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    sim = tempfile.mkdtemp(prefix="sim-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w + "/repo", check=True)
        shutil.copytree(os.path.dirname(HERE) + "/sim", sim + "/sim")
        shutil.copy(os.path.dirname(HERE) + "/KNOWN_FINDINGS", sim)
        shutil.copy(os.path.dirname(HERE) + "/properties.jsonl", sim)
        props = [meta["property"]] + ([f"C{k:02}" for k in range(1, 24) if k != 22 and f"C{k:02}" != meta["property"]] if every else [])
        caught = []
        for p in props:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "sim/check.py", p], cwd=sim, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            if p == meta["property"] or not every:
                what = [x for x in r.stdout.splitlines() if "VIOLATION" not in x][-1:] if not hit else \
                    [json.load(open(sim + f"/evidence/replay-{p}.json")).get("text", "")[:150]]
                print(f"{i:28} {p} {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s {what}", flush=True)
            if hit:
                caught.append(p)
        if every:
            print(f"{i:28} caught by {' '.join(sorted(caught))}", flush=True)
    finally:
        shutil.rmtree(w)
        shutil.rmtree(sim)
