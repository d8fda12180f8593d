"""
The simulated world: disks, PEP server, message transport, nodes (devices) and their incarnations, and the fault injection at the
seams. Knows nothing about properties except that observers (oracle.py) are told about every event.
"""
import asyncio
import contextvars
import json
import random

from env import EPOCH, NODE, OPCTX, RT, URANDOM, defer
import env
from kernel import SimLoop
import stub

import omemo
from omemo import SessionManager, TrustLevel
from omemo.session_manager import (
    BundleDeletionFailed, BundleDownloadFailed, BundleNotFound, BundleUploadFailed, DeviceListDownloadFailed,
    DeviceListUploadFailed, MessageSendingFailed, TrustDecisionFailed, UnknownTrustLevel
)
from omemo.storage import Just, Nothing, Storage, StorageException
from omemo.types import AsyncFramework


class NetError(Exception):
    pass


ERR = {
    "ub": BundleUploadFailed, "db": BundleDownloadFailed, "xb": BundleDeletionFailed, "ul": DeviceListUploadFailed,
    "dl": DeviceListDownloadFailed, "sm": MessageSendingFailed
}


class Rec:
    """One network interaction."""
    __slots__ = ("kind", "ns", "jid", "dev", "arg", "status", "result", "exc", "t0", "t1", "applied", "op", "fg", "seq", "done")

    def __init__(self, kind, ns, jid, dev, arg, op, fg, t0, seq):
        self.kind, self.ns, self.jid, self.dev, self.arg, self.op, self.fg, self.t0 = kind, ns, jid, dev, arg, op, fg, t0
        self.status, self.result, self.exc, self.t1, self.applied, self.seq = "pending", None, None, None, False, seq
        self.done = None

    def __repr__(self):
        return f"{self.kind}({self.ns},{self.jid},{self.dev})={self.status}"


class OpRun:
    """One operation of the workload in execution."""

    def __init__(self, oid, node, spec, par):
        self.id, self.node, self.spec, self.kind, self.par = oid, node, spec, spec["op"], par
        self.faults = list(spec.get("f", []))
        self.count = {"net": 0, "disk": 0}
        self.done = self.crashed = False
        self.result = self.exc = None
        self.recs = []              # Rec
        self.fired = []             # exception classes raised into the library
        self.disk_failed = False
        self.asks = []              # trust decision requests
        self.trust_sets = []
        self.t0 = self.t1 = None
        self.ctx = {}

    @property
    def ok(self):
        return self.done and not self.crashed and self.exc is None


class Msg:
    def __init__(self, mid, message, to_jid, sender, truth, forged=None):
        self.mid, self.message, self.to_jid, self.sender, self.truth, self.forged = mid, message, to_jid, sender, truth, forged


class SimStorage(Storage):
    def __init__(self, node, inc, cache):
        super().__init__(disable_cache=not cache)
        self.node, self.inc = node, inc

    async def _load(self, key):
        await self.node.disk_seam(self.inc, "load", key, None)
        raw = self.node.disk.get(key)
        return Nothing() if raw is None else Just(json.loads(raw))

    async def _store(self, key, value):
        raw = json.dumps(value)

        def apply():
            self.node.disk[key] = raw
        await self.node.disk_seam(self.inc, "store", key, apply)

    async def _delete(self, key):
        def apply():
            self.node.disk.pop(key, None)
        await self.node.disk_seam(self.inc, "delete", key, apply)


LEVELS = {"T1": TrustLevel.TRUSTED, "T2": TrustLevel.TRUSTED, "D": TrustLevel.DISTRUSTED, "D2": TrustLevel.DISTRUSTED,
          "U": TrustLevel.UNDECIDED, "U2": TrustLevel.UNDECIDED}


def make_manager_class(node, inc):
    world = node.world
    cfg = world.cfg

    class Manager(SessionManager):
        @staticmethod
        async def _upload_bundle(bundle):
            await node.net(inc, "ub", bundle.namespace, bundle.bare_jid, bundle.device_id, bundle)

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            return await node.net(inc, "db", namespace, bare_jid, device_id, None)

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            await node.net(inc, "xb", namespace, node.jid, device_id, None)

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            await node.net(inc, "ul", namespace, node.jid, None, dict(device_list))

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            return dict(await node.net(inc, "dl", namespace, bare_jid, None, None))

        async def _evaluate_custom_trust_level(self, device):
            if cfg["slow_trust"]:
                await node.pause(inc, 0.01)
            if device.trust_level_name not in LEVELS:
                raise UnknownTrustLevel(device.trust_level_name)
            return LEVELS[device.trust_level_name]

        async def _make_trust_decision(self, undecided, identifier):
            await world.obs.trust_ask(self, node, inc, undecided, identifier)

        @staticmethod
        async def _send_message(message, bare_jid):
            await node.net(inc, "sm", message.namespace, bare_jid, None, message)

    return Manager


class Node:
    def __init__(self, world, idx, cfg):
        self.world, self.idx, self.cfg = world, idx, cfg
        self.jid = world.cfg["jids"][cfg["acct"]]
        self.disk = {}
        self.inc = None             # current incarnation (object) or None
        self.mgr = None
        self.backends = {}
        self.loaded = []
        self.own_id = None
        self.ik = None
        self.clock_offset = 0.0
        self.ops = []               # operations in progress
        self.last_apply = 0.0
        self.notifs = []
        self.inbox = []
        self.fw = cfg["fw"]
        self.bg_fault_op = None     # sleep operation whose faults apply to background events

    # -- runtime for the backend stub
    def token(self, kind):
        return self.world.token(kind)

    def choice(self, n):
        return self.world.draw("choice", n)

    def clock(self):
        return EPOCH + self.world.loop.time() + self.clock_offset

    def next_hash(self):
        self.world.hash_ctr += 1
        return self.world.hash_ctr

    def on_rotate(self, ns, old_ts):
        self.world.obs.on_rotate(self, ns, old_ts)

    # -- waiting
    def waiter(self):
        if self.fw == "t":
            d = defer.Deferred()
            return d, (lambda v: d.callback(v)), (lambda e: d.errback(e))
        f = self.world.loop.create_future()
        return f, f.set_result, f.set_exception

    async def pause(self, inc, delay):
        w, ok, _ = self.waiter()
        self.world.loop.call_later(delay, lambda: ok(None) if self.inc is inc else None)
        await w

    async def freeze(self):
        w, _, _ = self.waiter()
        self.world.frozen.append(w)
        await w

    # -- crash
    def crash(self):
        self.world.stats["crash"] += 1
        self.world.log("crash", self.idx)
        self.down()

    def down(self):
        self.inc = self.mgr = None
        self.loaded = []
        self.backends = {}
        for op in list(self.ops):
            op.crashed = True
            op.done = True
            op.t1 = self.world.loop.time()
        self.ops = []
        self.world.obs.on_down(self)

    # -- fault selection
    def _fault(self, op, cls):
        """The fault planned for this event, if any."""
        if op is None:
            return None
        k = op.count[cls]
        op.count[cls] += 1
        for f in op.faults:
            if f["c"] == cls and f["k"] == k:
                return f["a"]
        return None

    def _op(self):
        """(operation, is foreground)"""
        op = OPCTX.get()
        if op is None or op.done or op.node is not self:
            return self.bg_fault_op, False
        return op, True

    # -- disk
    async def disk_seam(self, inc, kind, key, apply):
        world = self.world
        if self.inc is not inc:
            await self.freeze()
        op, fg = self._op()
        a = self._fault(op, "disk")
        world.events += 1
        if self.cfg["susp"] and fg:
            await self.pause(inc, world.delay("disk"))
        if a is not None:
            if not fg and a in ("eb", "ea"):
                a = None            # a failing storage ends the background task, see DESIGN.md
        if a is not None:
            world.fired("disk_" + a)
            world.log("disk", self.idx, kind, a)
            if a in ("ea", "ca") and apply is not None:
                apply()
            if a in ("cb", "ca"):
                self.crash()
                await self.freeze()
            if a in ("eb", "ea"):
                op.disk_failed = True
                op.fired.append(StorageException)
                raise StorageException("injected")
        if apply is not None:
            apply()

    # -- network
    async def net(self, inc, kind, ns, jid, dev, arg):
        world = self.world
        if self.inc is not inc:
            await self.freeze()
        op, fg = self._op()
        ctx_op = OPCTX.get() if fg else None
        rec = Rec(kind, ns, jid, dev, arg, ctx_op, fg, world.loop.time(), world.next_seq())
        if fg:
            ctx_op.recs.append(rec)
        world.events += 1
        world.log("net", self.idx, kind, ns, fg)
        a = self._fault(op, "net")
        if a == "nf" and kind != "db":
            a = "eb"
        if a is None and world.outage(self, kind):
            a = "out"
        if a is not None:
            world.fired("net_" + a)
        world.obs.on_net_issue(self, rec)
        if a == "cb":
            rec.status = "lost"
            self.crash()
            await self.freeze()
        w, ok, err = self.waiter()
        d1 = world.delay("net")
        d2 = world.delay("net")
        if a == "slow":
            d1 += 30 + world.draw("slow", 270)
        at = max(self.last_apply, world.loop.time() + d1)
        self.last_apply = at

        def answer():
            rec.t1 = world.loop.time()
            rec.done = world.next_seq()
            if self.inc is not inc:
                return
            if rec.exc is not None:
                rec.status = "err"
                if fg:
                    rec.op.fired.append(type(rec.exc))
                world.obs.on_net_done(self, rec)
                err(rec.exc)
            else:
                rec.status = "ok"
                world.obs.on_net_done(self, rec)
                ok(rec.result)

        def serve():
            if a in ("eb", "out"):
                rec.exc = ERR[kind]("injected")
            elif a == "nf":
                rec.exc = BundleNotFound("injected")
            else:
                try:
                    rec.result = world.server.apply(self, rec)
                    rec.applied = True
                    world.obs.on_net_applied(self, rec)
                except (BundleNotFound, BundleDownloadFailed) as e:
                    rec.exc = e
                if a == "ea" and rec.exc is None:
                    rec.exc = ERR[kind]("injected")
                if a == "ca" and self.inc is inc:
                    self.crash()
                    return
            world.loop.call_later(d2, answer)

        world.loop.call_at(at, serve)
        return await w


class Server:
    """PEP nodes and message routing."""

    def __init__(self, world):
        self.world = world
        self.lists = {}         # (ns, jid) -> {id: label}
        self.bundles = {}       # (ns, jid, id) -> bundle
        self.list_writer = {}   # (ns, jid) -> node or None (somebody else)
        self.list_log = {}      # (ns, jid) -> requests that wrote the list (None: somebody else)

    def get_list(self, ns, jid):
        return dict(self.lists.get((ns, jid), {}))

    def put_list(self, ns, jid, lst, writer, rec=None):
        self.list_log.setdefault((ns, jid), []).append(rec)
        self.lists[(ns, jid)] = dict(lst)
        self.list_writer[(ns, jid)] = writer
        for node in self.world.nodes:
            if node.inc is not None:
                node.notifs.append((ns, jid, dict(lst)))

    def apply(self, node, rec):
        k = rec.kind
        if k == "ub":
            self.bundles[(rec.ns, node.jid, rec.dev)] = rec.arg
        elif k == "db":
            b = self.bundles.get((rec.ns, rec.jid, rec.dev))
            if b is None:
                raise BundleNotFound("no such bundle")
            return b
        elif k == "xb":
            self.bundles.pop((rec.ns, node.jid, rec.dev), None)
        elif k == "ul":
            self.put_list(rec.ns, node.jid, rec.arg, node, rec)
        elif k == "dl":
            return self.get_list(rec.ns, rec.jid)
        elif k == "sm":
            self.world.route(rec.arg, [rec.jid], node, None)
        return None


class World:
    def __init__(self, plan, obs):
        self.plan, self.cfg, self.obs = plan, plan["cfg"], obs
        self.seed = plan["seed"]
        self.loop = SimLoop()
        self.server = Server(self)
        self.stats = {"crash": 0}
        self.msgs = []
        self.ctr = 0
        self.seq = 0
        self.hash_ctr = 0
        self.events = 0
        self.digest = stub.H("start")
        self.frozen = []
        self.outages = []
        self.draws = {}
        self.cur = "init"
        self.bg_tasks = []
        self.deferreds = []
        self.loop.on_task = self.bg_tasks.append
        self.nodes = [Node(self, i, c) for i, c in enumerate(plan["nodes"])]
        obs.attach(self)

    # -- deterministic choices: a pure function of the seed, the operation and the position within the operation, so that
    #    dropping other operations (minimisation) does not change them
    def draw(self, tag, n):
        key = (self.cur, tag)
        c = self.draws.get(key, 0)
        self.draws[key] = c + 1
        return int(stub.H(self.seed, self.cur, tag, c)[:12], 16) % n

    def delay(self, tag):
        mode = self.cfg["lat"]
        if mode == 0:
            return 0.001
        x = self.draw("lat" + tag, 1000)
        if mode == 1:
            return 0.001 + x / 5000.0
        return 0.001 + (x / 1000.0) ** 4 * 20.0

    def token(self, kind):
        self.ctr += 1
        return f"{kind}{self.ctr}"

    def next_seq(self):
        self.seq += 1
        return self.seq

    def log(self, *what):
        self.digest = stub.H(self.digest, *what)
        tr = self.plan.get("_trace")
        if tr is not None:
            tr.append(f"t={self.loop.time():.3f} " + " ".join(map(str, what)))

    def fired(self, kind):
        self.stats[kind] = self.stats.get(kind, 0) + 1

    def outage(self, node, kind):
        t = self.loop.time()
        return any(o["t0"] <= t < o["t1"] and kind in o["kinds"] and o["node"] in (None, node.idx) for o in self.outages)

    def track_deferred(self, d):
        self.deferreds.append(d)

    # -- messages
    def route(self, message, jids, sender, truth):
        """Put a message into the inbox of the devices of the given accounts."""
        m = Msg(len(self.msgs), message, tuple(jids), sender, truth)
        self.msgs.append(m)
        addressed = {(k[0].bare_jid, k[0].device_id) for k in message.keys}
        for node in self.nodes:
            if node is sender:
                continue
            if (node.jid, node.own_id) in addressed:
                node.inbox.append(m)
            elif node.jid in jids and self.draw("bystander", 12) == 0:
                node.inbox.append(m)
        self.obs.on_message(sender, m)
        return m

    # -- running operations
    def start(self, op, coro_fn):
        """Start an operation of the workload on its node."""
        node = op.node
        op.t0 = self.loop.time()
        op.seq = self.next_seq()
        node.ops.append(op)

        def finish(result, exc):
            if op.done:
                return
            op.done, op.result, op.exc, op.t1 = True, result, exc, self.loop.time()
            if op in node.ops:
                node.ops.remove(op)
            self.obs.on_op_return(op)

        async def run():
            try:
                result = await coro_fn()
            except (Exception, asyncio.CancelledError) as e:    # pylint: disable=broad-except
                finish(None, e)
            else:
                finish(result, None)

        ctx = contextvars.copy_context()

        def go():
            OPCTX.set(op)
            NODE.set(node)
            if node.fw == "t":
                env._real_ensure(run())
            else:
                asyncio.Task(run(), loop=self.loop, name="op", context=contextvars.copy_context())
        ctx.run(go)

    def activate(self):
        RT.loop, RT.world = self.loop, self
        URANDOM.reset(f"rnd{self.seed}".encode(), self.cfg["ids"])
        asyncio._set_running_loop(self.loop)

    def deactivate(self):
        asyncio._set_running_loop(None)
        RT.loop = RT.world = None
