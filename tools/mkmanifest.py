"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
NA = {"C22": "A pure function of its input: no concurrency, time, I/O, randomness or history for a schedule or fault to act on, so "
             "deterministic simulation with fault injection has nothing to decide here (see DESIGN.md)."}
TECH = "deterministic simulation with fault injection: seeded search over schedules, crashes and faults against a reference model"
NOTE = ("Seeded exploration, not proof: thousands of simulated runs of the real session manager and storage code over simulated disks, "
        "network, time and randomness with a symbolic backend; every failure is a seed plus a minimised replayable trace. Trusts the "
        "simulator's reference model and that storage writes are atomic per key.")
STNOTE = ("Seeded exploration, not proof: many simulated runs of the real Storage/Maybe code with concurrent clients over a disk whose "
          "operations take virtual time, fail before or after taking effect, and are cut off by crashes.")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: all seams are the library's own abstract methods plus module-level replacement of the loop, reactor, "
                "clock and randomness in the simulator process. Fixed defects are listed in KNOWN_FINDINGS."}
for p in props:
    i = p["id"]
    if i in NA:
        man["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    man["checks"].append({"property": i, "quick_cmd": f"/opt/venv/bin/python sim/check.py {i}",
                          "thorough_cmd": f"/opt/venv/bin/python sim/check.py {i}", "evidence_file": f"evidence/{i}.json",
                          "technique": TECH, "level": "exploration", "level_note": STNOTE if i == "C16" else NOTE})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
