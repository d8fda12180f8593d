"""
check.py <property>: decides one property by seeded simulation. Exit 0: held on everything explored. Exit 1 and a VIOLATION line:
broken. Exit 2: no answer. See DESIGN.md.

VERIF_SEED selects the seeds, VERIF_TIER (quick, thorough) how many; VERIF_RUNS, VERIF_WORKERS override the numbers.
"""
import collections
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HASHSEEDS = 8
STRIDE = 10_000_000

# Simulated runs of the quick tier; the thorough tier does THOROUGH times as many.
RUNS = collections.defaultdict(lambda: 6400, {"C11": 4000, "C16": 48000, "C09": 4800})
THOROUGH = 40
WALL = {"quick": 420, "thorough": 7200}     # give up exploring (not deciding) after this many seconds


def worker(prop, base, count, index, workers, stop_file, wall):
    sys.path.insert(0, HERE)
    import env
    import runner
    t0 = env.real_monotonic()
    say = lambda kind, x: print(json.dumps([kind, x]), flush=True)
    hashseed = int(os.environ["PYTHONHASHSEED"])
    agg = {"runs": 0, "events": 0, "sim": 0.0, "hung": 0, "errors": 0, "nontrivial": 0}
    hits, stats, digests, sketches, others, profiles = (collections.Counter() for _ in range(6))
    distinct = set()
    samples = []
    steps = collections.Counter()
    done = 0
    for k in range(count):
        if (1 + k % HASHSEEDS) != hashseed or (k // HASHSEEDS) % workers != index:
            continue
        if os.path.exists(stop_file) or env.real_monotonic() - t0 > wall:
            break
        seed = base + k
        profile = runner.profile_of(prop, k)
        plan = runner.make_plan(prop, profile, seed)
        out = runner.run(plan, prop)
        done += 1
        agg["runs"] += 1
        agg["events"] += out.events
        agg["sim"] += out.sim_time
        hits.update(out.hits)
        stats.update(out.stats)
        profiles[profile] += 1
        for v in out.violations:
            if prop not in v.props:
                others[",".join(v.props) + " " + v.code] += 1
        faults = sum(out.stats.values())
        if out.digest is not None:
            sketches[out.sketch] += 1
            if out.events >= 20 and (faults or any(h in out.hits for h in ("par", "concurrent_phase", "overlapping_pairs"))):
                distinct.add(out.digest)
                agg["nontrivial"] += 1
        if len(samples) < 2 and faults:
            samples.append({"seed": seed, "profile": profile, "hashseed": hashseed, "operations": len(plan["ops"]), "events": out.events,
                            "simulated_s": round(out.sim_time, 1), "faults": out.stats, "digest": out.digest,
                            "first_operations": plan["ops"][:6]})
        if out.error is not None:
            agg["errors"] += 1
            if agg["errors"] <= 2:
                say("error", {"seed": seed, "profile": profile, "trace": out.error[-2500:]})
        v = runner.first(out, prop)
        if v is not None:
            say("violation", {"seed": seed, "k": k, "profile": profile, "hashseed": hashseed, "code": v.code, "text": repr(v)})
            break
        if out.hung:
            agg["hung"] += 1
            if agg["hung"] >= 3:
                break
        if done % 25 == 0:
            runner.cleanup()
    agg.update(hits=hits, stats=stats, distinct=sorted(distinct), sketches=sorted(sketches), others=others, profiles=profiles,
               samples=samples, cpu=time.process_time())
    say("summary", agg)


def shrink_main(prop, path, hashseed):
    sys.path.insert(0, HERE)
    import runner
    import shrink
    with open(path, encoding="utf-8") as f:
        info = json.load(f)
    full = runner.make_plan(prop, info["profile"], info["seed"])
    small = shrink.shrink(full, prop, info["code"], seconds=info["budget"])
    trace = []
    out = runner.run(small, prop)
    again = runner.run(small, prop)
    v = runner.first(out, prop)
    import env
    import copy
    traced = copy.deepcopy(small)
    traced["_trace"] = trace
    try:
        runner.simulation(traced, prop).run()
    except BaseException:       # pylint: disable=broad-except
        pass
    info.update(property=prop, hashseed=int(hashseed), plan=small, code=v.code if v else None, text=repr(v), digest=out.digest,
                reproduced=again.digest == out.digest and v is not None, operations=len(small["ops"]), operations_before=len(full["ops"]),
                trace=trace[-200:])
    with open(path, "w", encoding="utf-8") as f:
        json.dump(info, f, indent=1, ensure_ascii=False)


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS"), encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: "):
                    out.append(dict(x.split("=", 1) for x in line[7:].split(" :: ")[0].split()) | {"text": line.strip()})
    except FileNotFoundError:
        pass
    return out


def main(prop):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WALL else "quick"
    count = int(os.environ.get("VERIF_RUNS", 0)) or RUNS[prop] * (THOROUGH if tier == "thorough" else 1)
    base = abs(seed) * STRIDE
    tmp = tempfile.mkdtemp(prefix="verif-")
    stop_file = os.path.join(tmp, "stop")
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    cores = int(os.environ.get("VERIF_WORKERS", 0)) or max(HASHSEEDS, (os.cpu_count() or 8))
    per = max(1, cores // HASHSEEDS)        # workers per hash seed
    sel = selectors.DefaultSelector()
    procs = []
    for h in range(1, HASHSEEDS + 1):
        for i in range(per):
            env = dict(os.environ, PYTHONHASHSEED=str(h))
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", prop, str(base), str(count), str(i), str(per),
                                  stop_file, str(WALL[tier])],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)
            p.buf = b""
            procs.append(p)
            sel.register(p.stdout, selectors.EVENT_READ, p)
    found, errors, sums = [], [], []

    def take(line):
        kind, x = json.loads(line)
        if kind == "violation":
            found.append(x)
            open(stop_file, "w", encoding="utf-8").close()
        elif kind == "error":
            errors.append(x)
        else:
            sums.append(x)
    while sel.get_map():
        for key, _ in sel.select(timeout=5):
            data = os.read(key.fd, 1 << 16)
            p = key.data
            if not data:
                sel.unregister(p.stdout)
                continue
            p.buf += data
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                take(line)
        if time.monotonic() - t0 > WALL[tier] + 120:
            for p in procs:
                p.kill()
    bad = []
    for p in procs:
        err = p.stderr.read().decode(errors="replace")
        if p.wait() != 0:
            bad.append(err[-1500:])
    hits, stats, others, profiles = (collections.Counter() for _ in range(4))
    distinct, sketches, samples = set(), set(), []
    tot = collections.Counter()
    for s in sums:
        for name in ("runs", "events", "sim", "hung", "errors", "nontrivial", "cpu"):
            tot[name] += s[name]
        hits.update(s["hits"])
        stats.update(s["stats"])
        others.update(s["others"])
        profiles.update(s["profiles"])
        distinct |= set(s["distinct"])
        sketches |= set(s["sketches"])
        samples += s["samples"]
    samples.sort(key=lambda s: s["seed"])
    search = time.monotonic() - t0
    # known findings
    known = [k for k in known_findings() if k.get("property") == prop]
    fresh = [v for v in found if not any(k.get("code") == v["code"] for k in known)]
    for k in known:
        print("KNOWN-FINDING: " + k["text"][7:])
    replay = None
    if fresh:
        v = min(fresh, key=lambda v: v["k"])
        path = os.path.join(evid, f"replay-{prop}.json")
        v["budget"] = 45 if tier == "quick" else 300
        with open(path, "w", encoding="utf-8") as f:
            json.dump(v, f)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--shrink", prop, path, str(v["hashseed"])],
                           env=dict(os.environ, PYTHONHASHSEED=str(v["hashseed"])), cwd=HERE, check=False, capture_output=True,
                           timeout=v["budget"] + 300)
        if r.returncode != 0:
            print(r.stderr.decode(errors="replace")[-1500:], file=sys.stderr)
        replay = path
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.monotonic() - t0
    storage = prop == "C16"
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(fresh),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": "one evaluation is one simulated run of a seeded plan; it counts as non-trivial if at least 20 I/O events happened and "
                    "at least one fault was injected or operations overlapped; distinct by the hash chain over all its I/O events, "
                    "faults and outcomes with their virtual order",
            "samples": samples[:3],
            "planned_runs": count,
            "runs_per_hour": round(tot["runs"] / max(search, 0.001) * 3600),
            "seeds": f"{base}..{base + count - 1}",
            "simulated_seconds": round(tot["sim"], 1),
            "io_events": tot["events"],
            "cpu_s": round(tot["cpu"], 1),
            "faults_injected": dict(sorted(stats.items())),
            "distinct_outcome_sketches": len(sketches),
            "reached": dict(sorted(hits.items())),
            "workload_profiles": dict(sorted(profiles.items())),
            "violations_of_other_properties_seen": dict(others),
            "harness_errors": tot["errors"], "hung_runs": tot["hung"],
            "components": {
                "real": ["omemo.storage (Storage, Maybe)"] if storage else
                        ["omemo.session_manager", "omemo.storage", "omemo.identity_key_pair", "omemo.backend", "omemo.session/bundle/"
                         "message/types", "xeddsa", "twisted.internet.defer", "asyncio tasks and futures"],
                "simulated": ["event loop and time", "the disk below Storage._load/_store/_delete"] if storage else
                             ["event loop, Twisted reactor and time", "the disk below Storage._load/_store/_delete",
                              "PEP server and message transport below SessionManager's abstract methods", "randomness", "user's trust "
                              "decisions", "backend cryptography (symbolic X3DH and double ratchet)" + (
                                  f"; real in the {profiles['REAL']} runs of profile REAL (twomemo, oldmemo)" if profiles["REAL"] else "")],
            },
        },
        "assumptions": ["the properties are explored by seeded search, not proved", "storage writes are atomic per key",
                        "the simulated backend behaves like a conforming backend"],
    }
    with open(os.path.join(evid, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    print(f"{prop}: {tot['runs']} runs, {len(distinct)} distinct non-trivial, {tot['sim']:.0f} s simulated, {tot['events']} events, "
          f"{sum(stats.values())} faults, {search:.1f} s")
    if fresh:
        with open(replay, encoding="utf-8") as f:
            info = json.load(f)
        print(info["text"])
        print(f"minimised from {info.get('operations_before')} to {info.get('operations')} operations; replay: "
              f"{sys.executable} {os.path.join(HERE, 'replay.py')} {replay}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    for e in errors[:2]:
        print(f"harness error in run {e['profile']}:{e['seed']}:\n{e['trace']}", file=sys.stderr)
    for b in bad[:1]:
        print(b, file=sys.stderr)
    if bad or tot["errors"] or len(sums) != len(procs):
        print(f"{prop}: no answer ({tot['errors']} harness errors, {len(bad)} failed workers)", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        a = sys.argv[2:]
        worker(a[0], int(a[1]), int(a[2]), int(a[3]), int(a[4]), a[5], float(a[6]))
    elif sys.argv[1] == "--shrink":
        shrink_main(*sys.argv[2:5])
    else:
        sys.exit(main(sys.argv[1]))
