"""Runs single plans in this process: used by the workers, the minimiser and the replay command."""
import copy
import gc
import json
import signal
import traceback

import env
import engine
import plan as plans
import storage_sim
from kernel import Hang

ALL = [f"C{i:02d}" for i in range(1, 22)] + ["C23"]
REAL = ("C04", "C05", "C15", "C19")     # some runs of these checks use the real backends
CPU_LIMIT = 45.0        # seconds of CPU for one run


class Outcome:
    def __init__(self):
        self.violations, self.error, self.hung = [], None, False
        self.digest = self.sketch = None
        self.hits, self.stats, self.events, self.sim_time = {}, {}, 0, 0.0


def _alarm(signum, frame):
    raise Hang()


def profile_of(prop, k):
    """Which workload profile run number k of a check uses: its own, every fourth time another one."""
    if prop in REAL and (k // 8) % 32 == 5:
        return "REAL"
    if prop == "C16" or k % 4 != 3:
        return prop
    others = [p for p in ALL if p not in (prop, "C11", "C16")]
    return others[(k // 4) % len(others)]


def make_plan(prop, profile, seed):
    if prop == "C16":
        return storage_sim.make_plan(seed)
    if profile == "REAL":
        import real_sim         # pylint: disable=import-outside-toplevel
        return real_sim.make_plan(seed)
    return plans.make_plan(seed, profile)


def simulation(plan, focus):
    if plan["seed"].startswith("C16:"):
        return storage_sim.StorageRun(plan, focus)
    if plan["seed"].startswith("real:"):
        import real_sim         # pylint: disable=import-outside-toplevel
        return real_sim.RealRun(plan, focus)
    return engine.Engine(plan, focus)


def run(plan, focus):
    """One simulated run. Pure function of the plan, the code under test and PYTHONHASHSEED."""
    out = Outcome()
    plan = copy.deepcopy(plan)
    storage = plan["seed"].startswith("C16:")
    e = None
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        e = simulation(plan, focus)
        e.run()
    except Hang:
        out.hung = True
    except Exception:       # pylint: disable=broad-except
        out.error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if e is None:
        return out
    if out.hung:
        kind = getattr(e, "running", None) or "background"
        props = ["C16"] if storage else ["C19"] + list(engine.OP_PROPS.get(kind, ("C11",))) + (["C11"] if kind == "boot" else [])
        e.violations.append(engine.Violation(props, f"hang:{kind}", f"{kind}: the library did not return for {CPU_LIMIT:.0f} s of CPU time",
                                             e.step))
    if out.error is not None and any(focus in v.props for v in e.violations):
        out.error = None    # confused by what was reported before
    kind = getattr(e, "running", None)
    if out.error is not None and not storage and focus in engine.OP_PROPS.get(kind, ()):
        # never happens as long as the library returns what its interface promises
        lines = out.error.strip().splitlines()
        e.violations.append(engine.Violation(engine.OP_PROPS[kind], f"malformed:{kind}:{lines[-1].split(':')[0]}",
                                             f"{kind}: what the library did or returned can't be interpreted: {' | '.join(lines[-3:])}", e.step))
        out.error = None
    out.violations = e.violations
    out.digest = e.world.digest
    out.sketch = engine.H(*e.sketch)
    out.hits, out.stats, out.events, out.sim_time = e.hits, e.world.stats, e.world.events, e.world.loop.time()
    return out


def first(out, focus):
    return next((v for v in out.violations if focus in v.props), None)


def cleanup():
    gc.collect()
