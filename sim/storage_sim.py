"""
C16: several clients use one Storage whose operations take (virtual) time, fail and are cut off by crashes.

Oracle: the simulated disk knows when which value was really in place. A read may only return a value the disk held since the
oldest write that was still in progress when the read started (or since the read started, if there was none), and none that was
replaced by a write which started after it was complete and completed before the read started. Without overlapping writes that is
exactly the value on disk.
"""
import asyncio
import copy
import json
import random

import env
from env import RT, URANDOM
from kernel import SimLoop
from stub import H

from omemo.storage import Just, Nothing, Maybe, NothingException, Storage, StorageException

ABSENT = ("absent",)


class Violation:
    def __init__(self, code, text, step):
        self.props, self.code, self.text, self.step = ("C16",), code, text, step

    def __repr__(self):
        return f"[C16] {self.code} at step {self.step}: {self.text}"


# ------------------------------------------------------------------ plans
KINDS = ["prim", "bytes", "opt", "list", "dict", "nested"]


def value_of(kind, tag, x):
    """A value of the kind, unique by ``tag``."""
    if kind == "prim":
        return [tag, 1000 + x, 0.5 + x, tag, 1000 + x, tag, 0, "", False, 0.0, True][x % 11]
    if kind == "bytes":
        return (tag.encode() + bytes([x % 256, 255, 0, 62, 63]))[: None if x % 5 else 40]
    if kind == "opt":
        return [None, tag, 2000 + x, tag, 0, "", False, 0.5 + x][x % 8]
    if kind == "list":
        return [[tag], [tag, "a", ""], [x, 1000 + x], [], [0.5 + x], [tag, 7], [None, tag], [[tag]], [0, tag], [True]][x % 10]
    if kind == "dict":
        return [{"k": tag}, {}, {tag: x, "": 3}, {"a": True, tag: False}, {"a": tag, "b": 3}, {tag: None}, {"k": [tag]}][x % 7]
    return {"n": [tag, {"deep": [x, None, True]}], "u": "ü☃\u0000"}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(f"storage:{seed}")
        self.seed = seed

    def plan(self):
        r = self.r
        keys = r.choice([["a"], ["a", "b"], ["/x", "/x/y", ""], ["k", "ü☃", "k/"]])
        nclients = r.choice([1, 2, 2, 3, 4])
        phases = r.choice([1, 2, 3])
        spread = r.choice([0, 1, 3, 10])
        fault = r.choice([0, 0, 0.15, 0.4])
        ops, n = [], 0
        kinds = [r.choice(KINDS) for _ in keys]
        mixed = r.random() < 0.4
        mix = r.choice([[5, 4, 1, 1], [5, 2, 2, 1], [2, 5, 2, 0], [6, 3, 2, 3]])
        for p in range(phases):
            for c in range(nclients):
                for _ in range(r.randint(1, r.choice([2, 4, 8]))):
                    n += 1
                    k = r.randrange(len(keys))
                    o = {"id": f"s{n}", "p": p, "c": c, "op": r.choices(["load", "store", "delete", "wrong"], mix)[0], "k": k,
                         "kind": r.choice(KINDS) if mixed else kinds[k], "x": r.randrange(110), "gap": r.choice([0, 0, 1, 2, r.randint(0, 12)]) * 0.1,
                         "d1": r.randint(0, spread) * 0.1 if spread else 0, "d2": r.randint(0, spread) * 0.1 if spread else 0,
                         "typed": r.random() < 0.6}
                    if r.random() < fault:
                        o["f"] = r.choice(["eb", "ea", "eb"])
                    ops.append(o)
            u = r.random()
            if u < 0.25:
                ops.append({"id": f"r{p}", "p": p, "op": "crash", "at": r.choice([0.1, 0.3, 0.7, 1.5, 3.0])})
            elif u < 0.5:
                ops.append({"id": f"r{p}", "p": p, "op": "restart"})
        return {"seed": f"C16:{self.seed}", "cfg": {"keys": keys, "cache": r.random() < 0.75, "suspend": spread > 0}, "ops": ops}


ACCESS = [(a, t) for a in ("primitive", "optional", "list", "dict") for t in (str, int, float, bool)] + [("bytes", None)]


def conforms(value, acc, t):
    """Whether a stored value is of the type asked for: True, False, or None if that is a matter of taste (a bool as an int)."""
    if acc == "bytes":
        if not isinstance(value, str):
            return False
        try:
            import base64
            raw = base64.urlsafe_b64decode(value.encode("ASCII"))
            return True if base64.urlsafe_b64encode(raw).decode("ASCII") == value else None
        except ValueError:
            return None
    if acc == "list":
        if not isinstance(value, list):
            return False
        elements = value
    elif acc == "dict":
        if not isinstance(value, dict):
            return False
        elements = list(value.values())
    elif value is None:
        return acc == "optional"
    else:
        elements = [value]
    if all(type(x) is t for x in elements):
        return True
    return None if all(isinstance(x, t) for x in elements) else False


def make_plan(seed, prop=None):
    return Gen(seed).plan()


# ------------------------------------------------------------------ execution
class Stats:
    pass


class Dead(Exception):
    pass


class StorageRun:
    def __init__(self, plan, focus=None):
        self.plan, self.cfg = plan, plan["cfg"]
        self.violations, self.hits, self.sketch = [], {}, []
        self.world = Stats()
        self.world.loop = self.loop = SimLoop()
        self.world.stats, self.world.events, self.world.digest = {"crash": 0}, 0, H("storage")
        self.disk = {}              # key -> JSON text
        self.hist = {}              # key -> [(t, seq, canonical value)], what was on disk since when
        self.writes = {}            # key -> [dict(start, end, ok, applied, value)]
        self.seq = 0
        self.step = "start"
        self.alive = None
        self.frozen = []

    def tick(self):
        self.seq += 1
        return self.seq

    def log(self, *x):
        self.world.digest = H(self.world.digest, *x)
        if self.plan.get("_trace") is not None:
            self.plan["_trace"].append(f"t={self.loop.time():.2f} " + " ".join(map(str, x)))

    def hit(self, n):
        self.hits[n] = self.hits.get(n, 0) + 1

    def v(self, code, text):
        self.violations.append(Violation(code, text, self.step))
        self.log("VIOLATION", code, text)

    def fresh(self):
        run, inc = self, object()
        self.alive = inc

        class Disk(Storage):
            async def _io(self, kind, key, apply):
                if run.alive is not inc:
                    await run.freeze()
                o = run.cur.get()
                run.world.events += 1
                if run.cfg["suspend"] and o.get("d1"):
                    await run.pause(inc, o["d1"])
                f = o.get("f")
                if f == "eb":
                    run.fault("disk_error_before", o)
                    raise StorageException("injected")
                result = apply()
                if run.cfg["suspend"] and o.get("d2"):
                    await run.pause(inc, o["d2"])
                if f == "ea":
                    run.fault("disk_error_after", o)
                    raise StorageException("injected")
                return result

            async def _load(self, key):
                def apply():
                    raw = run.disk.get(key)
                    return Nothing() if raw is None else Just(json.loads(raw))
                return await self._io("load", key, apply)

            async def _store(self, key, value):
                raw = json.dumps(value)

                def apply():
                    run.disk[key] = raw
                    run.applied(key)
                await self._io("store", key, apply)

            async def _delete(self, key):
                def apply():
                    run.disk.pop(key, None)
                    run.applied(key)
                await self._io("delete", key, apply)
        return Disk(disable_cache=not self.cfg["cache"])

    def fault(self, kind, o):
        self.world.stats[kind] = self.world.stats.get(kind, 0) + 1
        o["_fired"] = True

    def truth(self, key):
        raw = self.disk.get(key)
        return ABSENT if raw is None else json.dumps(json.loads(raw), sort_keys=True)

    def applied(self, key):
        self.hist.setdefault(key, []).append((self.tick(), self.truth(key)))
        w = self.cur.get().get("_w")
        if w is not None:
            w["applied"] = True

    async def pause(self, inc, delay):
        f = self.loop.create_future()
        self.loop.call_later(delay, lambda: f.set_result(None) if self.alive is inc else None)
        self.frozen.append(f)
        await f

    async def freeze(self):
        f = self.loop.create_future()
        self.frozen.append(f)
        await f

    # -- what a read may return
    def admissible(self, key, t0, t1):
        writes = self.writes.get(key, [])
        start = min([w["start"] for w in writes if w["start"] <= t1 and (w["end"] is None or w["end"] >= t0)] + [t0])
        hist = [(0, ABSENT)] + self.hist.get(key, [])
        out = set()
        for i, (t, value) in enumerate(hist):
            end = hist[i + 1][0] if i + 1 < len(hist) else float("inf")
            if t > t1 or end < start:
                continue
            # the write(s) this value can stem from; superseded if another one started after its end and completed before t0
            src = [w for w in writes if w["value"] == value and w["start"] <= t1] or [{"end": 0}]
            if value == ABSENT:
                src = src + [{"end": 0}]
            if any(w["end"] is None or not any(x["ok"] and x["start"] > w["end"] and x["end"] is not None and x["end"] < t0
                                               for x in writes) for w in src):
                out.add(value)
        return out

    # -- operations
    async def client(self, storage, ops):
        inc = self.alive
        for o in ops:
            token = self.cur.set(o)
            if o["gap"]:
                f = self.loop.create_future()
                self.loop.call_later(o["gap"], f.set_result, None)
                self.frozen.append(f)
                await f
            if self.alive is not inc:
                await self.freeze()
            await self.perform(storage, o)
            self.cur.reset(token)

    async def perform(self, storage, o):
        key = self.cfg["keys"][o["k"] % len(self.cfg["keys"])]
        kind = o["kind"]
        o.pop("_fired", None)
        o.pop("_w", None)
        exc = None
        if o["op"] in ("store", "delete"):
            value = value_of(kind, o["id"], o["x"]) if o["op"] == "store" else None
            stored = value
            if kind == "bytes" and value is not None:
                import base64
                stored = base64.urlsafe_b64encode(value).decode("ASCII")
            canonical = ABSENT if o["op"] == "delete" else json.dumps(stored, sort_keys=True)
            w = {"start": self.tick(), "end": None, "ok": False, "applied": False, "value": canonical}
            self.writes.setdefault(key, []).append(w)
            o["_w"] = w
            overl = any(x is not w and x["end"] is None for x in self.writes[key])
            try:
                if o["op"] == "delete":
                    await storage.delete(key)
                elif kind == "bytes":
                    await storage.store_bytes(key, value)
                else:
                    await storage.store(key, value)
            except Exception as e:          # pylint: disable=broad-except
                exc = e
            w["end"], w["ok"] = self.tick(), exc is None
            if overl:
                self.hit("overlapping_writes")
            if exc is None and not w["applied"]:
                self.v("write-lost", f"{o['op']} of {key!r} returned, but nothing was written")
            if isinstance(value, list):
                value.append("mutated")
            elif isinstance(value, dict):
                value["mutated"] = 1
                if "n" in value:
                    value["n"][1]["deep"].append("mutated")
        else:
            t0 = self.tick()
            if any(x["end"] is None for x in self.writes.get(key, [])):
                self.hit("read_during_write")
            maybe = None
            try:
                maybe = await self.load(storage, key, o)
            except StorageException as e:
                exc = e
            except Exception as e:          # pylint: disable=broad-except
                exc = e
            t1 = self.tick()
            if exc is None or isinstance(exc, (StorageException, TypeError, ValueError)):
                self.judge(o, key, maybe, exc, t0, t1)
            if isinstance(exc, (TypeError, ValueError)):
                exc = None
        self.log(o["op"], key, type(exc).__name__)
        self.sketch.append((o["op"], o["c"], type(exc).__name__))
        if exc is not None and not (isinstance(exc, StorageException) and o.get("_fired")):
            self.v("unexpected-exception", f"{o['op']} of {key!r} raised {type(exc).__name__}: {exc}")
        if exc is None and o.get("_fired"):
            self.v("error-swallowed", f"{o['op']} of {key!r} succeeded although the storage reported an error")

    async def load(self, storage, key, o):
        kind = o["kind"]
        o["_acc"] = None
        if o["op"] == "wrong":
            acc, t = ACCESS[int(H(o["id"], o["x"])[:6], 16) % len(ACCESS)]
        elif not o["typed"] or kind == "nested":
            return await storage.load(key)
        elif kind == "bytes":
            acc, t = "bytes", None
        else:
            raw = self.peek(key)
            acc = "list" if isinstance(raw, list) else "dict" if isinstance(raw, dict) else "optional" if raw is None or kind == "opt" else "primitive"
            elem = list(raw.values()) if isinstance(raw, dict) else raw if isinstance(raw, list) else [raw]
            t = type(elem[0]) if elem and type(elem[0]) in (str, int, float, bool) else str
        o["_acc"] = (acc, t)
        return await (storage.load_bytes(key) if acc == "bytes" else getattr(storage, "load_" + acc)(key, t))

    def peek(self, key):
        raw = self.disk.get(key)
        return None if raw is None else json.loads(raw)

    def judge(self, o, key, maybe, exc, t0, t1):
        import base64
        adm = self.admissible(key, t0, t1)
        if isinstance(exc, StorageException):
            return
        acc = o["_acc"]
        if exc is not None:
            # refused: fine if a value of another type than asked for was or could be there
            fits = {True if x is ABSENT or acc is None else conforms(json.loads(x), *acc) for x in adm}
            if fits == {True}:
                self.v("type-refused", f"load of {key!r} as {acc} refused: {exc}, possible: {sorted(map(str, adm))}")
            else:
                self.hit("wrong_type_refused")
            return
        if not isinstance(maybe, Maybe):
            self.v("no-maybe", f"load of {key!r} returned {maybe!r}")
            return
        try:
            value = maybe.from_just()
            got = json.dumps(base64.urlsafe_b64encode(value).decode("ASCII") if isinstance(value, bytes) else value, sort_keys=True)
        except NothingException:
            value, got = None, ABSENT
        if maybe.is_just != (got != ABSENT) or maybe.is_nothing == maybe.is_just:
            self.v("maybe-inconsistent", f"is_just/is_nothing wrong for {got}")
        if got not in adm:
            self.v("wrong-read", f"load of {key!r} returned {got}, possible: {sorted(map(str, adm))}")
            return
        self.hit("read_absent" if got == ABSENT else "read_value")
        if acc is not None and got is not ABSENT:
            if conforms(json.loads(got), *acc) is False:
                self.v("wrong-type-accepted", f"load of {key!r} as {acc} returned {got}")
            elif acc[0] == "bytes" and not isinstance(value, bytes):
                self.v("bytes-not-restored", f"load_bytes returned {value!r}")
            elif acc[0] != "bytes" and json.dumps(value, sort_keys=True) != got:
                self.v("wrong-read", f"load of {key!r} as {acc} returned {value!r} for {got}")
            else:
                self.hit("typed_read")
                if not value:
                    self.hit("typed_read_falsy")
        # decoupling
        if got != ABSENT:
            for x in (value, maybe.maybe("default"), maybe.fmap(self.scribble).from_just()):
                self.scribble(x)
            if json.dumps(self.plain(maybe.from_just()), sort_keys=True) != got:
                self.v("aliased", f"modifying the value loaded for {key!r} modified the container")
            if maybe.maybe("default") == "default":
                self.v("maybe-inconsistent", "Just.maybe returned the default")
        else:
            d = ["default"]
            if maybe.maybe(d) is not d or maybe.fmap(self.scribble).is_just:
                self.v("maybe-inconsistent", "Nothing.maybe/fmap wrong")

    @staticmethod
    def plain(value):
        import base64
        return base64.urlsafe_b64encode(value).decode("ASCII") if isinstance(value, bytes) else value

    @staticmethod
    def scribble(x):
        if isinstance(x, list):
            x.append("mutated")
        elif isinstance(x, dict):
            x["mutated"] = 1
            if isinstance(x.get("n"), list) and len(x["n"]) > 1 and isinstance(x["n"][1], dict):
                x["n"][1]["deep"] = "mutated"
        return x

    def quiesce(self, storage, what):
        """With nothing in progress, every key must read exactly as it is on disk, for every accessor."""
        for rnd in range(2):
            for i, key in enumerate(self.cfg["keys"]):
                o = {"id": "q", "op": "load", "k": i, "kind": "nested", "typed": False, "gap": 0, "c": -1}
                before = len(self.violations)
                self.run_tasks([self.client(storage, [o])])
                if len(self.violations) > before:
                    self.violations[-1].text += f" ({what})"

    def run_tasks(self, coros, crash_at=None):
        done = []
        tasks = []
        for c in coros:
            t = asyncio.Task(c, loop=self.loop)
            t.add_done_callback(lambda t: done.append(t))
            tasks.append(t)
        limit = self.loop.time() + (crash_at if crash_at is not None else 10000)
        ok = self.loop.run_until(lambda: len(done) == len(tasks), max_time=limit)
        for t in done:
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()
        return ok

    def run(self):
        import contextvars
        self.cur = contextvars.ContextVar("sop")
        self.cur.set({})
        RT.loop, RT.world = self.loop, None
        URANDOM.reset(self.plan["seed"].encode())
        asyncio._set_running_loop(self.loop)
        try:
            storage = self.fresh()
            ops = self.plan["ops"]
            for p in sorted({o["p"] for o in ops}):
                self.step = p
                mine = [o for o in ops if o["p"] == p]
                crash = next((o for o in mine if o["op"] == "crash"), None)
                clients = {}
                for o in mine:
                    if o["op"] not in ("crash", "restart"):
                        clients.setdefault(o["c"], []).append(dict(o))
                if len(clients) > 1:
                    self.hit("concurrent_phase")
                ok = self.run_tasks([self.client(storage, x) for _, x in sorted(clients.items())], crash and crash["at"])
                if not ok and crash is None:
                    self.v("wedged", "operations do not end")
                    return self
                if crash is not None:
                    self.world.stats["crash"] += 1
                    if not ok:
                        self.hit("crash_in_flight")
                    self.alive = None
                    storage = self.fresh()
                    for ws in self.writes.values():     # never heard of again; the disk decides
                        for w in ws:
                            if w["end"] is None:
                                w["end"] = self.tick()
                    self.quiesce(storage, "after a crash")
                elif any(o["op"] == "restart" for o in mine):
                    self.quiesce(storage, "before a restart")
                    self.world.stats["restart"] = self.world.stats.get("restart", 0) + 1
                    storage = self.fresh()
                    self.quiesce(storage, "after a restart")
                else:
                    self.quiesce(storage, "at rest")
        finally:
            asyncio._set_running_loop(None)
            RT.loop = RT.world = None
        return self


def run_plan(plan, focus=None):
    return StorageRun(plan, focus).run()
