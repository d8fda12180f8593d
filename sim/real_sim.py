"""
Simulated runs with the real backends (twomemo, oldmemo: real X3DH, double ratchet and content encryption) above the same kernel,
disks, server and fault injection. Part of the checks of C04 and C19, and the evidence that the symbolic backend of the other runs is
a fair stand-in. Nothing here looks into the backends: it judges what decryption returns.

Phases of a run:
  1. boot: every device is set up (crashes and network faults, tried again until it works), lists are delivered;
  2. contact: sessions are built one after the other, messages delivered in order;
  3. traffic: messages are lost, delayed, reordered and duplicated; devices crash at network events and between operations;
     history synchronisation goes on and off; time passes. Every delivered message decrypts exactly once, to what was sent;
  4. recovery (half of the runs): traffic again after one device lost its state of some sessions, or the world was left with crossing
     initiations; after the faults stop, replacing sessions and sending again must lead to messages that decrypt.
"""
import random

import env
from env import OPCTX, RT, defer
import stub
from engine import Violation
from world import OpRun, SimStorage, World, make_manager_class

import omemo
from omemo.types import AsyncFramework
import doubleratchet.recommended.diffie_hellman_ratchet_curve25519 as dh25519
import oldmemo
import twomemo

H = stub.H
_RealKey = dh25519.X25519PrivateKey


class _DetKey:
    """Key pairs of the double ratchet come from the simulator's randomness, too."""
    from_private_bytes = staticmethod(_RealKey.from_private_bytes)

    @staticmethod
    def generate():
        return _RealKey.from_private_bytes(env.URANDOM(32))


dh25519.X25519PrivateKey = _DetKey

BACKENDS = {"urn:xmpp:omemo:2": twomemo.Twomemo, "eu.siacs.conversations.axolotl": oldmemo.Oldmemo}
NS = list(BACKENDS)


def make_plan(seed, profile="REAL"):
    r = random.Random(f"real:{seed}")
    accts = r.choice([2, 2, 3])
    nodes = []
    for i in range(r.choice([2, 2, 3, 3])):
        nodes.append({"acct": i if i < accts else r.randrange(accts), "fw": r.choice("aat"), "cache": r.random() < .5, "und": "U",
                      "susp": False, "ns": r.choice([[0], [1], [0, 1], [0, 1], [1, 0]])})
    accts = len({n["acct"] for n in nodes})
    limits = [r.choice([1000, 1000, 8, 20]), None]
    ops = []
    n = len(nodes)

    def faults():
        if r.random() < .25:
            return [{"c": "net", "k": r.randrange(6), "a": r.choice(["cb", "ca", "eb", "ea", "slow"])}]
        return []
    for _ in range(r.choice([8, 14, 22])):
        x = r.random()
        o = {"n": r.randrange(n), "f": faults() if r.random() < .6 else []}
        if x < .42:
            o.update(op="send", to=sorted(r.sample(range(accts), r.choice([1, 1, min(2, accts)]))))
        elif x < .80:
            o.update(op="recv", pick=r.random(), dup=r.random() < .15)
        elif x < .86:
            o.update(op="restart")
        elif x < .90:
            o.update(op="sync", begin=r.random() < .4)
        elif x < .94:
            o.update(op="sleep", d=r.choice([60, 86400, 8 * 86400]))
        elif x < .97:
            o.update(op="drop", pick=r.random())
        else:
            o.update(op="burst", to=[r.randrange(accts)], count=r.choice([3, 6, 9]))
        ops.append(o)
    for i, o in enumerate(ops):
        o["id"] = i
    return {"seed": f"real:{seed}", "cfg": {"jids": [f"{c}@example.org" for c in "abc"[:3]], "slow_trust": False, "lat": r.choice([0, 1, 2]),
                                           "ids": []},
            "nodes": nodes, "limits": limits, "period": 604800, "thr": r.choice([25, 50, 99]), "ops": ops, "recovery": r.choice([0, 1]),
            "bootf": [faults() for _ in range(n)], "wipe": [r.randrange(n), r.randrange(n)], "final": False}


class RealRun:
    def __init__(self, plan, focus):
        self.plan, self.focus = plan, focus
        self.violations, self.hits, self.sketch = [], {}, []
        self.step = self.running = None
        self.nops = 0
        self.world = World(plan, self)

    # -- observer
    def attach(self, world):
        for node in world.nodes:
            node.sync = True
            node.got = {}           # mid -> number of times decryption returned

    async def trust_ask(self, mgr, node, inc, undecided, identifier):
        for d in undecided:
            await mgr.set_trust(d.bare_jid, d.identity_key, "T1")

    def on_down(self, node):
        node.sync = True
        node.notifs = []

    def on_rotate(self, node, ns, ts):
        pass

    on_net_issue = on_net_applied = on_net_done = lambda self, node, rec: None

    def on_message(self, sender, msg):
        pass

    def on_op_return(self, op):
        pass

    def v(self, props, code, text):
        self.violations.append(Violation(props, code, text, self.step))

    def hit(self, name):
        self.hits[name] = self.hits.get(name, 0) + 1

    # -- running operations
    def call(self, node, kind, fn, faults=()):
        w = self.world
        self.running = kind
        op = OpRun(self.nops, node, {"op": kind, "f": list(faults)}, False)
        self.nops += 1
        w.start(op, fn)
        if not w.loop.run_until(lambda: op.done, max_time=w.loop.time() + 4000, max_steps=200000):
            self.v(["C19"], f"stuck:{kind}", f"{kind} on device {node.idx} never returns")
            node.down()
        w.log("op", kind, node.idx, "crash" if op.crashed else type(op.exc).__name__)
        self.sketch.append((kind, type(op.exc).__name__, op.crashed))
        return op

    def boot(self, node, faults=()):
        """Set the device up, trying again until it works. Faults hit the first attempt only."""
        w = self.world
        for attempt in range(4):
            inc = node.inc = object()
            storage = SimStorage(node, inc, node.cfg["cache"])
            lim = self.plan["limits"]
            backends = [BACKENDS[NS[i]](storage, lim[0], lim[1]) for i in node.cfg["ns"]]
            cls = make_manager_class(node, inc)
            op = self.call(node, "boot", lambda: cls.create(
                backends, storage, node.jid, None, node.cfg["und"], self.plan["period"], self.plan["thr"],
                AsyncFramework.TWISTED if node.fw == "t" else AsyncFramework.ASYNCIO
            ), faults if attempt == 0 else ())
            if op.ok:
                node.mgr = op.result
                node.loaded = [NS[i] for i in node.cfg["ns"]]
                own = self.call(node, "own", node.mgr.get_own_device_information)
                if not own.ok:
                    self.v(["C04", "C19"], "own-info", f"own device information unavailable: {own.exc!r}")
                    return False
                dev = own.result[0]
                if node.own_id not in (None, dev.device_id):
                    self.v(["C18", "C04"], "id-changed", "device id changed")
                node.own_id, node.ik = dev.device_id, dev.identity_key
                return True
            if op.exc is not None and not faults:
                self.v(["C19", "C08"], "boot-fails", f"setup without faults fails: {op.exc!r}")
                return False
            if node.inc is not None:
                node.down()
        self.v(["C19", "C08"], "boot-fails", f"setup keeps failing after faults stopped: {op.exc!r}")
        return False

    def ready(self, node):
        return node.mgr is not None or (self.boot(node) and self.feed(node))

    def feed(self, node, tries=3):
        """Hand the current device lists of everybody to the device."""
        w = self.world
        for ns in node.loaded:
            for jid in dict.fromkeys(m.jid for m in w.nodes):
                for _ in range(tries):
                    op = self.call(node, "feed", lambda: node.mgr.update_device_list(ns, jid, w.server.get_list(ns, jid)))
                    if op.ok:
                        break
                    if node.mgr is None:
                        return False
                else:
                    self.v(["C19", "C06"], "update-fails", f"update_device_list fails without faults: {op.exc!r}")
                    return False
        return True

    def feed_all(self):
        for node in self.world.nodes:
            if node.mgr is not None:
                self.feed(node)

    def sync(self, node, begin, faults=()):
        if begin:
            op = self.call(node, "sync", self._sync_fn(node.mgr.before_history_sync), ())
        else:
            op = self.call(node, "sync", node.mgr.after_history_sync, faults)
        if op.ok:
            node.sync = begin
        return op

    @staticmethod
    def _sync_fn(fn):
        async def go():
            fn()
        return go

    def send(self, node, accts, faults=()):
        """Returns the messages, or None if encryption did not succeed."""
        w = self.world
        jids = frozenset(w.cfg["jids"][a] for a in accts)
        self.nops += 1
        data = H(w.seed, "plain", self.nops).encode()
        op = self.call(node, "enc", lambda: node.mgr.encrypt(jids, {ns: data for ns in node.loaded}), faults)
        if not op.ok:
            if op.exc is not None and not op.fired and not isinstance(op.exc, (omemo.session_manager.NoEligibleDevices,)):
                self.v(["C04", "C19"], "encrypt-fails", f"encryption without faults fails: {op.exc!r}")
            if isinstance(op.exc, omemo.session_manager.NoEligibleDevices):
                # only right if there is nobody with a common backend
                for jid in jids:
                    if any(m is not node and m.jid == jid and m.own_id is not None
                           and any(m.own_id in w.server.get_list(ns, jid) for ns in node.loaded) for m in w.nodes) \
                            and not op.fired and jid in op.exc.bare_jids:
                        self.v(["C04", "C19"], "no-eligible", f"no eligible device reported for {jid}, which has one")
            return None
        messages, errors = op.result
        if errors and not op.fired:
            self.v(["C04", "C19"], "encrypt-errors", f"encryption without faults reports {sorted(map(repr, errors))}")
        out = []
        for m in sorted(messages, key=lambda m: m.namespace):
            if (m.bare_jid, m.device_id) != (node.jid, node.own_id):
                self.v(["C04"], "sender", "a message names a wrong sender")
            out.append(w.route(m, jids, node, data))
        self.hit("sent")
        return out

    def recv(self, node, msg, faults=(), must=True):
        """Deliver a message. ``must``: it has to decrypt, unless it did before."""
        w = self.world
        op = self.call(node, "dec", lambda: node.mgr.decrypt(msg.message), faults)
        before = node.got.get(msg.mid, 0)
        if op.ok:
            plain, device, skipped = op.result
            node.got[msg.mid] = before + 1
            if plain != msg.truth:
                self.v(["C04"], "wrong-plaintext", f"decrypted to {plain!r}, sent was {msg.truth!r}")
            if (device.bare_jid, device.device_id) != (msg.sender.jid, msg.sender.own_id) or device.identity_key != msg.sender.ik:
                self.v(["C04", "C03"], "wrong-sender", f"attributed to {device.bare_jid}/{device.device_id}")
            if before and msg.truth is not None:
                self.v(["C04", "C05"], "replayed", f"message {msg.mid} decrypted again")
            self.hit("received")
        elif op.exc is not None and must and not before and not op.fired and not self.unknown_sender(node, msg):
            self.v(["C04"] if must is True else must, "undecryptable",
                   f"message {msg.mid} from device {msg.sender.idx} does not decrypt on device {node.idx}: {op.exc!r}")
        elif op.exc is not None and before:
            self.hit("duplicate_refused")
        if op.fired or op.crashed:
            # sending the empty message or uploading the bundle may have failed after decryption: what became of it is the backend's
            # business only if the application was told; deliver again
            self.hit("decrypt_interrupted")
        return op

    def unknown_sender(self, node, msg):
        return msg.sender.own_id not in self.world.server.get_list(msg.message.namespace, msg.sender.jid)

    def mine(self, node, msg):
        return any((k[0].bare_jid, k[0].device_id) == (node.jid, node.own_id) for k in msg.message.keys) \
            and msg.message.namespace in node.loaded

    def pump(self, rounds=6):
        """Deliver everything in order until nothing is left."""
        w = self.world
        for _ in range(rounds):
            idle = True
            for node in w.nodes:
                while node.inbox:
                    idle = False
                    msg = node.inbox.pop(0)
                    if self.mine(node, msg) and self.ready(node):
                        self.recv(node, msg, must=self.strict)
            if idle:
                return

    # -- the run
    def run(self):
        self.world.activate()
        try:
            self.body()
        finally:
            for node in self.world.nodes:
                node.inc = None
            self.world.deactivate()

    def body(self):
        w, plan = self.world, self.plan
        n = w.nodes
        self.strict = True
        self.step = "boot"
        for node, faults in zip(n, plan["bootf"]):
            w.cur = f"boot{node.idx}"
            if not self.boot(node, faults):
                return
        self.feed_all()
        self.step = "contact"
        for node in n:
            w.cur = f"sync{node.idx}"
            self.sync(node, False)
        for a in n:
            for acct in range(len({m.jid for m in n})):
                w.cur = f"contact{a.idx}-{acct}"
                self.send(a, [acct])
                self.pump()
        if self.violations:
            return
        for spec in plan["ops"]:
            self.step = spec["id"]
            w.cur = f"op{spec['id']}"
            self.traffic(n[spec["n"] % len(n)], spec)
            if any(self.focus in v.props for v in self.violations):
                return
        self.step = "drain"
        w.cur = "drain"
        for node in n:
            if not self.ready(node):
                return
            self.sync(node, False)
        self.pump()
        if plan["recovery"] and not self.violations:
            self.recovery()

    def traffic(self, node, spec):
        w, kind = self.world, spec["op"]
        if not self.ready(node):
            return
        f = spec["f"]
        if kind == "send":
            self.send(node, [a % len({m.jid for m in w.nodes}) for a in spec["to"]], f)
        elif kind == "burst":
            # stay within the limits on skipped message keys
            for _ in range(min(spec["count"], (self.plan["limits"][0] or 1000) - 4)):
                if node.mgr is not None:
                    self.send(node, [spec["to"][0] % len({m.jid for m in w.nodes})])
        elif kind == "recv" and node.inbox:
            i = int(spec["pick"] * len(node.inbox))
            if self.plan["limits"][0] < 100:
                i = 0               # small limits: in order
            msg = node.inbox[i]
            if not self.mine(node, msg):
                node.inbox.pop(i)
                return
            op = self.recv(node, msg, f)
            if op.crashed or op.fired:
                w.fired("redelivered")
                if node.got.get(msg.mid):
                    node.inbox.pop(i)
                elif self.ready(node):
                    # the state may have been persisted before the interruption
                    op = self.recv(node, msg, must=False)
                    node.inbox.pop(i)
            elif not spec["dup"]:
                node.inbox.pop(i)
            else:
                w.fired("duplicate")
        elif kind == "drop" and node.inbox and self.plan["limits"][0] > 100:
            w.fired("loss")
            node.inbox.pop(int(spec["pick"] * len(node.inbox)))
        elif kind == "restart":
            w.fired("restart")
            node.down()
            self.ready(node)
        elif kind == "sync":
            self.sync(node, spec["begin"], f)
        elif kind == "sleep":
            w.loop.run_for(spec["d"])

    def recovery(self):
        """Some devices lose their sessions (a damaged store); replacing them must make messages flow again."""
        w, n = self.world, self.world.nodes
        self.step, self.strict = "recovery", False
        a, b = n[self.plan["wipe"][0] % len(n)], n[self.plan["wipe"][1] % len(n)]
        common = [ns for ns in a.loaded if ns in b.loaded]
        if a is b or not common:
            return
        w.fired("lost_sessions")
        b.down()
        for key in [k for k in b.disk if any(k.startswith(f"/{ns}/{a.jid}/") or k == f"/{ns}/bare_jids" for ns in common)]:
            if key.endswith("bare_jids") or f"/{a.own_id}/" in key or key.endswith("device_ids"):
                del b.disk[key]
        if not self.ready(b):
            return
        self.sync(b, False)
        # a message that b can't read any more
        self.send(a, [b.cfg["acct"]])
        self.pump()
        own = self.call(a, "info", lambda: a.mgr.get_device_information(b.jid))
        dev = next((d for d in own.result if d.device_id == b.own_id), None) if own.ok else None
        if dev is None:
            self.v(["C19", "C06"], "device-unknown", f"a listed device is not known: {own.exc!r}")
            return
        op = self.call(a, "replace", lambda: a.mgr.replace_sessions(dev))
        if not op.ok or op.result:
            self.v(["C19", "C15"], "replace-fails", f"replacing sessions without faults fails: {op.exc!r} {op.result!r}")
            return
        self.pump()
        self.strict = ["C19"]
        for x, y in ((a, b), (b, a), (a, b)):
            sent = self.send(x, [y.cfg["acct"]])
            if sent is None:
                return
            if not any(y.own_id == k[0].device_id and y.jid == k[0].bare_jid for m in sent for k in m.message.keys):
                self.v(["C19", "C02"], "not-addressed", "a message after recovery does not include the device")
            self.pump()
        self.hit("recovered")
