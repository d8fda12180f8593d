"""
Executes a plan in a World and judges every step: the oracles. ``run_plan`` is a pure function of the plan, the code under test
and PYTHONHASHSEED.
"""
import base64
import json
import traceback

import xeddsa

import env
from env import EPOCH, URANDOM
import stub
from stub import H, View, bundle_of, dry_decrypt
from model import Dev, Model
from world import LEVELS, Msg, OpRun, SimStorage, World, make_manager_class

import omemo
from omemo import TrustLevel
from omemo.session_manager import (
    BundleDeletionFailed, BundleDownloadFailed, BundleNotFound, BundleUploadFailed, DeviceListDownloadFailed,
    DeviceListUploadFailed, MessageNotForUs, MessageSendingFailed, NoEligibleDevices, NoSession, PublicDataInconsistency,
    SenderDistrusted, SenderNotFound, StillUndecided, TrustDecisionFailed, UnknownNamespace, UnknownTrustLevel
)
from omemo.backend import DecryptionFailed, KeyExchangeFailed, TooManySkippedMessageKeys
from omemo.message import Message
from omemo.storage import StorageException
from omemo.types import AsyncFramework


class Stop(Exception):
    """A violation of interest was found, end the run."""


class Violation:
    def __init__(self, props, code, text, step):
        self.props, self.code, self.text, self.step = tuple(props), code, text, step

    def __repr__(self):
        return f"[{','.join(self.props)}] {self.code} at step {self.step}: {self.text}"


OP_PROPS = {
    "boot": ("C08", "C09", "C18", "C19"), "enc": ("C02", "C19"), "dec": ("C03", "C04", "C19"), "upd": ("C06", "C07", "C19"),
    "refresh": ("C06", "C07", "C19"), "trust": ("C17", "C19"), "replace": ("C15", "C19"), "label": ("C07", "C19"),
    "info": ("C06", "C17", "C19"), "own": ("C08", "C18", "C19"), "ensure": ("C13", "C19"), "purge_jid": ("C14", "C19"),
    "purge_ns": ("C09", "C19"), "sync_end": ("C10", "C12", "C19"), "chain": ("C05", "C19"),
}

# The documented network failures of each operation; others have to be dealt with by the library.
FAILS = {
    "boot": (BundleUploadFailed, BundleDeletionFailed, DeviceListUploadFailed, DeviceListDownloadFailed),
    "ensure": (DeviceListDownloadFailed, DeviceListUploadFailed, BundleUploadFailed), "label": (DeviceListUploadFailed, DeviceListDownloadFailed),
    "purge_ns": (BundleDeletionFailed, DeviceListUploadFailed, DeviceListDownloadFailed), "upd": (DeviceListUploadFailed,),
    "refresh": (DeviceListUploadFailed, DeviceListDownloadFailed), "sync_end": (MessageSendingFailed,),
    "dec": (DeviceListUploadFailed, DeviceListDownloadFailed, MessageSendingFailed, BundleUploadFailed),
}

# Which property promises that an interrupted operation leaves the library usable.
INTERRUPTED = {"boot": "C08", "purge_ns": "C09", "purge_jid": "C14"}

# Violations by which losses caused by overlapping operations show.
LOSSES = {"device-dropped", "status-wrong", "pre-key-still-usable", "pre-key-still-published", "pre-keys-lost", "bundle-not-published",
          "message-key-reuse", "session-lost", "hidden-pre-keys-left"}

DAY = 86400.0


def types(xs):
    return "/".join(sorted({x.__name__ for x in xs})) or "success"


class Bg:
    """What the background rotation of one incarnation is expected to do."""

    def __init__(self):
        self.acc, self.since = 0.0, None
        self.s0, self.base = {}, {}
        self.fail, self.delay = {}, {}
        self.pending = {}
        self.died = None

    def stall(self, now):
        return self.acc + (now - self.since if self.since is not None else 0.0)


class Engine:
    def __init__(self, plan, focus=None):
        self.plan, self.focus = plan, focus
        self.violations = []
        self.step = "start"
        self.hits = {}
        self.locks = {}
        self.opn = 0
        self.sketch = []
        self.world = None
        self.world = World(plan, self)
        self.cfg = plan["cfg"]
        self.allns = self.cfg["ns"]
        self.stale = 53
        self.rotations_left = 3000.0

    # ------------------------------------------------------------------ bookkeeping
    def attach(self, world):
        for node in world.nodes:
            node.model = Model(node.cfg["und"])
            node.bg = Bg()
            node.ever = set()           # namespaces with (possibly) something of this device online
            node.bundle_tampered = set()
            node.misinformed = set()    # namespaces for which an outdated list claimed that this device is listed
            node.loading = None
            node.announced = False
            node.booted = False
            node.boots = 0
            node.thr, node.period = node.cfg["thr"], node.cfg["period"]
            node.setup_done = set()     # namespaces whose set up completed in a failed attempt
            node.messy = False          # whether anything was interrupted or failed to store data
            node.interrupted = set()    # properties about what was interrupted on this node
            node.synced = set()         # namespaces whose published bundle was known to equal the local one
            node.label_c = {node.cfg["label"]}
            node.up_ns = list(node.cfg["ns"])
            if node.cfg.get("mig"):
                self.migrate(world, node)

    def migrate(self, world, node):
        """A device whose identity key was imported (in either form) from another implementation or an earlier version."""
        seed = bytes.fromhex(H("seed", world.seed, node.idx) * 4)[:32]
        form = node.cfg["mig"]
        node.disk["/ikp/is_seed"] = json.dumps(form == "seed")
        node.disk["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(seed if form == "seed" else xeddsa.seed_to_priv(seed)).decode("ASCII"))
        node.ik = xeddsa.seed_to_ed25519_pub(seed)

    def v(self, props, code, text):
        if self.collision:
            return
        if code in LOSSES and "par" in self.hits and "C21" not in props:
            props = list(props) + ["C21"]       # something got lost after operations overlapped
        vio = Violation(props, code, text, self.step)
        self.violations.append(vio)
        self.world.log("VIOLATION", code)
        if self.focus is None or self.focus in vio.props:
            raise_now = self.focus is not None
            if raise_now:
                self.stop = True

    stop = False
    collision = False
    abandoned = False

    def hit(self, name, n=1):
        self.hits[name] = self.hits.get(name, 0) + n

    def view(self, node):
        return View(node.disk)

    def snap(self, node):
        return View(dict(node.disk))

    def local_bundle(self, node, ns, view=None):
        st = (view or self.view(node)).state(ns)
        return None if st is None else bundle_of(st, ns, node.jid, node.own_id, node.ik)

    def limits(self, node, ns):
        return tuple(node.cfg["limits"][ns])

    # ------------------------------------------------------------------ event hooks
    def on_down(self, node):
        node.bg = Bg()
        node.synced.clear()
        node.model.sync = True
        node.notifs = []

    def own_id_seen(self, node, dev, op, what):
        if node.own_id is None or (dev != node.own_id and not node.announced):
            if node.own_id is not None:
                node.model.devs.get(node.jid, {}).pop(node.own_id, None)
            node.own_id = dev
            if not 1 <= dev <= 2 ** 31 - 1:
                self.v(["C18"], "device-id-range", f"device id {dev} out of range")
            if op is not None and op.kind == "boot":
                seen = set()
                for r in op.recs:
                    if r.kind == "ub":
                        break
                    if r.kind == "dl" and r.status == "ok" and r.jid == node.jid:
                        seen |= set(r.result)
                # what was listed all the time, whether or not it was looked at
                if seen or node.boots == 1:
                    for ns in node.loading or ():
                        seen |= set(op.ctx["lists"].get((ns, node.jid), {})) & set(self.world.server.get_list(ns, node.jid))
                if dev in seen and not node.booted:
                    self.v(["C18"], "device-id-clash", f"generated device id {dev} was already listed: {sorted(seen)}")
                elif seen:
                    self.hit("id_generated_among_others")
            if any(n is not node and n.jid == node.jid and n.own_id == dev for n in self.world.nodes):
                # possible if the other device is not listed for the backends loaded here; nothing is promised then
                self.hit("id_collision")
                self.collision = True
        elif dev != node.own_id:
            self.v(["C18"], "device-id-changed", f"{what}: device id {dev}, announced before as {node.own_id}")

    def ik_seen(self, node, ik, what):
        if node.ik is None or (ik != node.ik and not node.announced and not node.cfg.get("mig")):
            node.ik = ik
        elif ik != node.ik:
            self.v(["C18"], "identity-key-changed", f"{what}: identity key {ik.hex()[:8]}, before {node.ik.hex()[:8]}")

    def ns_allowed(self, node):
        return set(node.loading if node.loading is not None else node.loaded)

    def on_net_issue(self, node, rec):
        w, k = self.world, rec.kind
        now = w.loop.time()
        if k == "ub":
            self.ik_seen(node, rec.arg.identity_key, "bundle upload")
            self.own_id_seen(node, rec.dev, rec.op, "bundle upload")
            if rec.jid != node.jid:
                self.v(["C18"], "foreign-bundle", f"bundle uploaded for {rec.jid}")
            if rec.ns not in self.ns_allowed(node):
                self.v(["C09"], "republished-purged", f"bundle uploaded for {rec.ns}, which is not loaded")
            if not rec.fg:
                self.bg_upload(node, rec, now)
        elif k == "ul":
            if rec.ns not in self.ns_allowed(node) and node.own_id in rec.arg:
                self.v(["C09"], "relisted-purged", f"device list with own device uploaded for {rec.ns}, which is not loaded")
            if node.own_id in rec.arg:
                have = w.server.bundles.get((rec.ns, node.jid, node.own_id))
                if have is None and (rec.ns, node.own_id) not in node.bundle_tampered:
                    self.v(["C08"], "listed-without-bundle", f"device list for {rec.ns} lists this device, but no bundle is published")
            if not rec.fg:
                self.v(["C07"], "background-list-upload", f"device list uploaded by background work: {rec.arg}")
        elif k == "sm":
            self.on_send(node, rec)

    def on_net_applied(self, node, rec):
        k = rec.kind
        if k == "ub":
            node.announced = True
            node.ever.add(rec.ns)
            node.bundle_tampered.discard((rec.ns, rec.dev))
        elif k == "ul":
            if node.own_id in rec.arg:
                node.misinformed.discard(rec.ns)
                node.announced = True
                node.ever.add(rec.ns)
        elif k == "xb":
            key = (rec.ns, node.jid)
            if node.own_id in self.world.server.get_list(*key) and self.world.server.list_writer.get(key) is node:
                self.v(["C09"], "bundle-deleted-while-listed", f"bundle for {rec.ns} deleted while the device list still lists the device")
            if rec.ns in self.ns_allowed(node) and not (rec.op is not None and rec.op.kind == "purge_ns"):
                self.v(["C09", "C08"], "deleted-loaded", f"bundle of loaded backend {rec.ns} deleted")
            if rec.dev != node.own_id:
                self.v(["C09"], "deleted-foreign", f"bundle of device {rec.dev} deleted")

    def on_net_done(self, node, rec):
        if rec.kind == "dl" and rec.exc is None:
            self.outdated(node, rec.ns, rec.jid, rec.result)
        if rec.kind == "ub" and not rec.fg and rec.op is None:
            self.bg_upload_done(node, rec)

    def outdated(self, node, ns, jid, lst):
        if jid == node.jid and node.own_id in lst and node.own_id not in self.world.server.get_list(ns, jid):
            node.misinformed.add(ns)

    # ------------------------------------------------------------------ background rotation
    def on_rotate(self, node, ns, old_ts):
        now = self.world.loop.time()
        bg = node.bg
        age = node.clock() - old_ts
        self.hit("rotation")
        period = node.period
        if age < period - 0.001:
            self.v(["C11"], "rotated-early", f"{ns}: rotated at age {age:.0f} < period {period}")
        self.age_check(node, ns, age, "at rotation")
        if ns not in self.ns_allowed(node):
            self.v(["C09", "C11"], "rotated-purged", f"signed pre key of {ns} rotated, which is not loaded")
        bg.s0[ns], bg.base[ns] = bg.stall(now), 0.0
        bg.pending[ns] = now

    def age_check(self, node, ns, age, when):
        bg, now = node.bg, self.world.loop.time()
        if ns not in bg.base:
            return
        bound = max(node.period + 60, bg.base[ns] + 1) + bg.stall(now) - bg.s0[ns] + 2
        if age > bound:
            self.v(["C11"], "overdue", f"{ns}: signed pre key age {age:.0f} {when}, bound {bound:.0f}")

    def bg_upload(self, node, rec, now):
        bg, ns = node.bg, rec.ns
        if bg.fail.get(ns) is not None:
            want = bg.fail[ns] + bg.delay[ns]
            if abs(now - want) > 1.5:
                self.v(["C11"], "retry-delay", f"{ns}: retried {now - bg.fail[ns]:.0f}s after a failed upload, expected {bg.delay[ns]}s")
            self.hit("rotation_retry")
            if bg.delay[ns] >= 3600:
                self.hit("rotation_retry_capped")
        bg.pending.pop(ns, None)
        bg.fail[ns] = None
        if bg.since is None:
            bg.since = now
        want = self.local_bundle(node, ns)
        if rec.arg != want:
            self.v(["C11", "C10"], "stale-bundle-published", f"{ns}: background upload of a bundle that differs from the local one")

    def bg_upload_done(self, node, rec):
        bg, ns, now = node.bg, rec.ns, self.world.loop.time()
        if rec.status == "ok":
            bg.fail[ns] = None
            bg.delay[ns] = 0
            bg.acc, bg.since = bg.stall(now), None
        else:
            bg.fail[ns] = now
            bg.delay[ns] = 60 if not bg.delay.get(ns) else min(bg.delay[ns] * 2, 3600)
            if ns not in node.loaded:       # purged meanwhile, there is no retry
                self.bg_forget(node, ns)

    def bg_forget(self, node, ns):
        bg = node.bg
        if bg.fail.get(ns) is not None:
            bg.acc, bg.since = bg.stall(self.world.loop.time()) + 3700, None
        for d in (bg.fail, bg.delay, bg.pending, bg.base, bg.s0):
            d.pop(ns, None)

    def bg_settled(self, node, ns):
        bg = node.bg
        return bg.since is None and not bg.pending.get(ns) and bg.fail.get(ns) is None

    def background_checks(self):
        now = self.world.loop.time()
        for task in self.world.bg_tasks:
            if task.done() and not task.cancelled() and task.exception() is not None:
                op = task.get_context().get(env.OPCTX)
                if op is None or op.done:
                    self.v(["C11", "C19"], "background-task-died", "background task ended with "
                           + "".join(traceback.format_exception_only(task.exception())).strip())
        self.world.bg_tasks[:] = [t for t in self.world.bg_tasks if not t.done()]
        for d in self.world.deferreds:
            if d.called and not getattr(d, "_simseen", False):
                from twisted.python.failure import Failure
                if isinstance(d.result, Failure):
                    text = d.result.getErrorMessage()
                    d.addErrback(lambda f: None)
                    self.v(["C11", "C19"], "background-task-died", f"background deferred ended with {text}")
        self.world.deferreds[:] = [d for d in self.world.deferreds if not d.called]
        for node in self.world.nodes:
            if node.mgr is None:
                continue
            view = self.view(node)
            if not node.ops:
                self.published_check(node, "now")
            for ns in node.loaded:
                st = view.state(ns)
                if st is not None:
                    self.age_check(node, ns, node.clock() - st["ts"], "now")
                bg = node.bg
                t = bg.pending.get(ns)
                if t is not None and now > t + 2 and bg.since is None:
                    self.v(["C11"], "rotation-unpublished", f"{ns}: no upload after rotating the signed pre key")
                    bg.pending.pop(ns)
                if bg.fail.get(ns) is not None and now > bg.fail[ns] + bg.delay[ns] + 2:
                    self.v(["C11"], "no-retry", f"{ns}: failed upload after rotation not retried after {bg.delay[ns]}s")
                    bg.fail[ns] = None

    # ------------------------------------------------------------------ messages leaving the library
    def on_send(self, node, rec):
        op, m = rec.op, rec.arg
        if op is None or op.kind not in ("dec", "sync_end", "replace"):
            self.v(["C12"], "unsolicited-message", f"message sent by {op.kind if op else 'background work'}")
        if m.namespace not in self.ns_allowed(node):
            self.v(["C09", "C12"], "message-unloaded", f"message sent under {m.namespace}, which is not loaded")
        if not m.content.empty:
            self.v(["C12", "C01"], "automated-content", "automated message with content")
        if m.bare_jid != node.jid or m.device_id != node.own_id:
            self.v(["C18", "C12"], "wrong-sender", f"message claims to be from {m.bare_jid}/{m.device_id}")
        self.release(node, m, exempt=op is not None and op.kind == "replace")
        if not rec.fg:
            return

    def release(self, node, m, exempt, alone=True):
        view = self.view(node)
        for ekm, kex in m.keys:
            other = self.locks.get(ekm.lock)
            if other is not None and other != ekm.km:
                self.v(["C05", "C21"], "message-key-reuse", f"two different messages to {ekm.bare_jid}/{ekm.device_id} use the "
                       f"same message key (n={ekm.n})")
            self.locks[ekm.lock] = ekm.km
            if not exempt:
                st = view.session(m.namespace, ekm.bare_jid, ekm.device_id)
                if st is None or st["sid"] != ekm.sid:
                    if alone:
                        self.v(["C05", "C04"], "session-not-durable", f"message to {ekm.bare_jid}/{ekm.device_id} released, but its "
                               f"session is not the stored one")
                elif st["dhs"] == ekm.dh and st["ns"] <= ekm.n:
                    self.v(["C05"], "session-not-durable", f"message to {ekm.bare_jid}/{ekm.device_id} released before the session "
                           f"was stored")

    def on_message(self, sender, msg):
        pass

    def on_op_return(self, op):
        fn = getattr(self, "ret_" + op.kind, None)
        if fn is not None:
            fn(op)

    async def trust_ask(self, mgr, node, inc, undecided, identifier):
        op = env.OPCTX.get()
        if op is None or op.done or op.kind != "enc":
            self.v(["C01"], "unsolicited-trust-decision", "trust decision requested outside of encryption")
            return
        op.asks.append((undecided, identifier))
        policy = op.spec["policy"]
        if self.world.cfg["slow_trust"]:
            await node.pause(inc, 0.05)
        if policy == "fail":
            raise TrustDecisionFailed("injected")
        for d in sorted(undecided, key=lambda d: (d.bare_jid, d.device_id)):
            key = (d.bare_jid, d.identity_key)
            if policy == "trust":
                name = "T1"
            elif policy == "distrust":
                name = "D"
            else:
                name = ["T1", "T2", "T1", "D", "T1", "T2", None][int(H(self.plan["seed"], op.id, d.bare_jid, d.identity_key.hex())[:6], 16)
                                                               % (7 if policy == "leave" else 6)]
            if name is None:
                continue
            op.trust_sets.append((key, name))
            node.model.trust[key] = node.model.get_trust(*key) | {name}
            await mgr.set_trust(d.bare_jid, d.identity_key, name)
            node.model.trust[key] = {name}
        if policy != "turn":
            return
        # the user reconsiders other devices, too
        asked = {(d.bare_jid, d.identity_key) for d in undecided}
        for jid in sorted(set(op.ctx["jids"]) | {node.jid}):
            for did, d in sorted(node.model.devs.get(jid, {}).items()):
                if len(d.ik) != 1 or None in d.ik:
                    continue
                key = (jid, next(iter(d.ik)))
                was = node.model.get_trust(*key)
                x = int(H(self.plan["seed"], op.id, "turn", jid, key[1].hex())[:6], 16) % 5
                if key in asked or len(was) != 1 or next(iter(was)) not in LEVELS or x > 2:
                    continue
                asked.add(key)
                name = "U2" if x == 2 and did % 3 == 0 else "T2" if LEVELS[next(iter(was))] is not TrustLevel.TRUSTED else "D"
                self.hit("trust_turned")
                op.trust_sets.append((key, name))
                node.model.trust[key] = was | {name}
                await mgr.set_trust(*key, name)
                node.model.trust[key] = {name}

    # ------------------------------------------------------------------ running operations
    def execute(self, node, spec, coro_fn, ctx=None, par=False):
        self.opn += 1
        op = OpRun(spec.get("id", f"x{self.opn}"), node, spec, par)
        op.ctx = ctx or {}
        op.list_marks = {k: len(x) for k, x in self.world.server.list_log.items()}
        self.world.start(op, coro_fn)
        return op

    running = None

    def run_for(self, dt):
        self.running = None
        if not self.world.loop.run_for(dt):
            self.v(["C11", "C19"], "spinning", "background work does not come to rest")

    def wait(self, ops):
        w = self.world
        t0 = w.loop.time()
        self.running = ops[0].kind
        if not w.loop.run_until(lambda: all(o.done for o in ops), max_time=t0 + DAY):
            for o in ops:
                if not o.done:
                    self.v(["C19"] + list(OP_PROPS.get(o.kind, ())), "wedged", f"operation {o.kind} did not end")
                    o.done = o.crashed = True
            return False
        return True

    def explained(self, op):
        """Whether the exception an operation ended with is an injected failure it is documented to forward."""
        return type(op.exc) in op.fired and (isinstance(op.exc, StorageException) or type(op.exc) in FAILS.get(op.kind, ()))

    def late_write(self, op, ns, jid):
        """Whether a request sent before this operation (by an incarnation that crashed) reached the list during it."""
        log = self.world.server.list_log.get((ns, jid), [])
        late = any(r is None or r.op is not op for r in log[op.list_marks.get((ns, jid), 0):])
        if late:
            self.hit("late_write")
        return late

    def unexpected(self, op, expected, extra=()):
        """An exception (or success) that neither the model nor an injected fault explains."""
        props = sorted(set(OP_PROPS.get(op.kind, ())) | set(extra) | op.node.interrupted | ({"C21"} if op.par else set()))
        tb = "".join(traceback.format_exception(op.exc)[-3:]).strip() if op.exc is not None else "success"
        self.v(props, f"unexpected:{op.kind}:{type(op.exc).__name__ if op.exc else 'success'}",
               f"{op.kind} ended with {type(op.exc).__name__ if op.exc else 'success'}, expected {expected}: {tb}")

    def one(self, spec, par=False):
        """Prepare and start one operation. Returns (op, check function) or None if it does not apply here."""
        nodes = self.world.nodes
        node = nodes[spec["n"] % len(nodes)]
        fn = getattr(self, "op_" + spec["op"])
        return fn(node, spec, par)

    def run_op(self, spec):
        self.world.cur = str(spec.get("id", "?"))
        if spec["op"] == "par":
            return self.run_par(spec)
        if spec["op"] in ("drain", "burst"):
            return getattr(self, "run_" + spec["op"])(spec)
        started = self.one(spec)
        if started is None:
            return None
        op, check = started
        if self.wait([op]):
            check(op)
            self.common(op)
        return op

    def run_drain(self, spec):
        """Deliver what is waiting for a node (or all nodes), without faults."""
        nodes = self.world.nodes
        for node in (nodes if spec["n"] is None else [nodes[spec["n"] % len(nodes)]]):
            for kind in spec["kinds"]:
                for _ in range(len(node.notifs if kind == "notif" else node.inbox)):
                    if node.mgr is not None and not self.stop:
                        self.sub(kind, node)

    def run_burst(self, spec):
        """A long one-sided conversation: messages are sent, and lost, until the sending chain has the wanted length."""
        nodes = self.world.nodes
        node, peer = nodes[spec["n"] % len(nodes)], nodes[spec["to"] % len(nodes)]
        for _ in range(60):
            if node.mgr is None or peer.own_id is None or node is peer or self.stop:
                return
            n = max([(self.view(node).session(ns, peer.jid, peer.own_id) or {"ns": 0})["ns"] for ns in node.loaded] or [0])
            if n >= spec["len"]:
                self.hit("burst")
                return
            op = self.sub("enc", node, to=[self.cfg["jids"].index(peer.jid)], prio=0, ident=None, policy="trust", lost=n > 0)
            if op is None or not op.ok:
                return
            if n == 0:
                self.run_drain({"n": peer.idx, "kinds": ["dec"]})
                if spec["reply"]:
                    self.run_drain({"n": node.idx, "kinds": ["dec"]})

    def common(self, op):
        """After every operation: what was learned about identity keys, and generic rules."""
        if not op.ok and (op.crashed or op.fired) and op.kind in INTERRUPTED:
            op.node.interrupted.add(INTERRUPTED[op.kind])
        if op.crashed or op.disk_failed:
            op.node.messy = True
        self.track_published(op)
        self.world.log("op", op.kind, op.node.idx, "crash" if op.crashed else type(op.exc).__name__ if op.exc else "ok")
        self.sketch.append((op.kind, op.node.idx, "crash" if op.crashed else type(op.exc).__name__ if op.exc else "ok",
                            len(op.recs)))

    def track_published(self, op):
        """From which operations on the published bundles have to follow the local ones."""
        node = op.node
        if op.crashed or op.disk_failed or op.kind == "boot" or any(r.kind == "ub" and r.status != "ok" for r in op.recs):
            node.synced.clear()
        if op.ok and op.kind == "ensure":
            node.synced |= set(node.loaded)
        if op.ok and op.kind == "boot":
            node.synced |= {r.ns for r in op.recs if r.kind == "ub" and r.status == "ok"}

    def published_check(self, node, when):
        for ns in node.loaded:
            if ns in node.synced and self.bg_settled(node, ns) and (ns, node.own_id) not in node.bundle_tampered:
                if self.world.server.bundles.get((ns, node.jid, node.own_id)) != self.local_bundle(node, ns):
                    self.v(["C10", "C11", "C13"] + (["C21"] if "par" in self.hits else []), "bundle-diverged",
                           f"node {node.idx}: the published bundle of {ns} no longer equals the local one, although no upload failed")
                    node.synced.discard(ns)

    def learn(self, op):
        certain = not op.crashed and not op.disk_failed
        m = op.node.model
        for r in op.recs:
            if r.kind == "db" and r.status == "ok":
                d = m.devs.get(r.jid, {}).get(r.dev)
                if d is not None and None in d.ik:
                    m.learn_ik(r.jid, r.dev, r.result.identity_key, certain)
                    # overlapping operations that downloaded bundles which don't agree: whichever was recorded first
                    d.ik = d.ik | op.ctx.get("group_iks", {}).get((r.jid, r.dev), set())

    # ------------------------------------------------------------------ device lists
    def own_label(self, node):
        d = node.model.devs.get(node.jid, {}).get(node.own_id)
        return d.label if d is not None else {node.cfg["label"]}

    def fed(self, op, lists, strict=True, feed=True):
        """
        ``lists``: [(ns, jid, list)] fed to the library by this operation, in order. Checks the republication of the own list and
        updates the model.
        """
        node = op.node
        certain = op.ok or (not op.crashed and not op.disk_failed and not any(
            e in (DeviceListUploadFailed,) for e in op.fired))
        got = [r for r in op.recs if r.kind == "ul" and (strict or r.ns in {x[0] for x in lists})]
        m, missing = node.model, False
        labels = set()
        if op.par:
            labels = set(op.ctx.get("labels", ()))
        for ns, jid, lst in lists:
            seq = next((r.done for r in op.recs if r.result is lst), None) or op.seq
            if jid == node.jid and node.own_id not in lst and not missing:
                self.hit("own_device_missing_in_list")
                if not got:
                    missing = True
                    if op.ok:
                        self.v(["C07"], "own-device-not-readded", f"list {lst} for {ns} lacks device {node.own_id}, but was not republished")
                else:
                    r = next((r for r in got if r.ns == ns), got[0])
                    got.remove(r)
                    seq = r.done or r.seq
                    labels |= self.own_label(node)
                    if not (r.ns == ns and any(r.arg == {**lst, node.own_id: lb} for lb in labels)):
                        self.v(["C07"], "republished-wrongly", f"{r.ns}: republished {r.arg}, expected {lst} plus {node.own_id} labelled "
                               f"{sorted(map(str, labels))}")
                    if op.par:      # could overwrite a label set while waiting for the upload
                        self.par_feeds.append((seq, node, ("maylabel", r.arg.get(node.own_id))))
                    else:
                        labels = set()
            if not feed:
                continue
            if jid == node.jid and node.own_id is not None:
                lst = {node.own_id: None, **lst}
                own = m.dev(node.jid, node.own_id)
                own.known = own.known | {True}
            if op.par and op.kind != "boot":
                self.par_feeds.append((seq, node, ("list", jid, ns, lst, certain)))
            else:
                m.feed(jid, ns, lst, certain)
        if got and strict:
            self.v(["C07"], "needless-list-upload", f"{got[0].ns}: device list {got[0].arg} uploaded although it was complete")

    def downloaded(self, op, jids=None):
        return [(r.ns, r.jid, r.result) for r in op.recs if r.kind == "dl" and r.status == "ok" and (jids is None or r.jid in jids)]

    def op_upd(self, node, spec, par, lst=None, ns=None, jid=None):
        if node.mgr is None:
            return None
        if lst is None:
            ns = self.allns[spec["ns"] % len(self.allns)]
            jid = self.cfg["jids"][spec["jid"] % len(self.cfg["jids"])]
            lst = {}
            base = self.world.server.get_list(ns, jid) if spec["base"] else {}
            for k, lb in base.items():
                if not spec["drop"] or int(H(spec["id"], k)[:4], 16) % spec["drop"]:
                    lst[k] = lb
            for g in spec["ghosts"]:
                lst[self.ghost_id(g[0])] = g[1]
        mgr = node.mgr
        given = dict(lst)
        loaded = list(node.loaded)
        self.outdated(node, ns, jid, given)
        op = self.execute(node, spec, lambda: mgr.update_device_list(ns, jid, lst), {"lst": given}, par=par)

        def check(op):
            self.outdated(node, ns, jid, given)
            if given != lst:
                self.v(["C06"], "argument-mutated", "update_device_list modified the device list it was given")
            if ns not in loaded:
                if not isinstance(op.exc, UnknownNamespace) and not op.crashed and not (op.disk_failed and isinstance(op.exc, StorageException)):
                    self.unexpected(op, "UnknownNamespace", ["C09"])
                return
            self.fed(op, [(ns, jid, given)])
            self.list_result(op)
        return op, check

    def list_result(self, op):
        if op.exc is not None and not self.explained(op):
            self.unexpected(op, types(op.fired))

    def ghost_id(self, k):
        return (1 if self.cfg["ids"] and not self.abandoned else 1000) + k % 8

    def op_notif(self, node, spec, par):
        if node.mgr is None or not node.notifs:
            return None
        i = spec["r"] % len(node.notifs) if spec.get("reorder") else 0
        ns, jid, lst = node.notifs.pop(i)
        if spec.get("lose"):
            self.world.fired("notif_lost")
            return None
        return self.op_upd(node, dict(spec, op="upd"), par, lst=dict(lst), ns=ns, jid=jid)

    def op_refresh(self, node, spec, par):
        if node.mgr is None:
            return None
        mgr = node.mgr
        jid = self.cfg["jids"][spec["jid"] % len(self.cfg["jids"])]
        loaded = list(node.loaded)
        if spec["ns"] is None:
            want = list(node.loaded)
            op = self.execute(node, spec, lambda: mgr.refresh_device_lists(jid), par=par)
        else:
            ns = self.allns[spec["ns"] % len(self.allns)]
            want = [ns]
            op = self.execute(node, spec, lambda: mgr.refresh_device_list(ns, jid), par=par)

        def check(op):
            if spec["ns"] is not None and want[0] not in loaded:
                if not isinstance(op.exc, UnknownNamespace) and not op.crashed and not self.explained(op):
                    self.unexpected(op, "UnknownNamespace", ["C09"])
                return
            got = self.downloaded(op, {jid})
            self.fed(op, got)
            if op.ok and {x[0] for x in got} != set(want):
                self.v(["C06"], "not-refreshed", f"refresh of {want} downloaded the lists of {[x[0] for x in got]}")
            self.list_result(op)
        return op, check

    # ------------------------------------------------------------------ device information
    def op_info(self, node, spec, par, jid=None):
        if node.mgr is None:
            return None
        if jid is None:
            jid = self.cfg["jids"][spec["jid"] % len(self.cfg["jids"])]
        mgr = node.mgr
        op = self.execute(node, spec, lambda: mgr.get_device_information(jid), par=par)

        def check(op):
            if op.par:
                if op.exc is not None and not op.disk_failed:
                    self.unexpected(op, "device information")
            else:
                self.check_info(op, jid, op.result)
        return op, check

    def attempts(self, op, jid, did):
        return [r for r in op.recs if r.kind == "db" and r.jid == jid and r.dev == did]

    def untried(self, node, d, tried):
        """The loaded backends a device surely supports, under which its bundle was not looked for (to learn its identity key)."""
        return [ns for ns in node.loaded if None not in d.a(ns) and not any(r.ns == ns for r in tried)]

    def check_info(self, op, jid, infos):
        node, m = op.node, op.node.model
        self.learn(op)
        if not op.ok:
            if op.exc is not None and type(op.exc) is not StorageException or (op.exc is not None and not op.disk_failed):
                self.unexpected(op, "device information")
            return
        byid = {}
        for info in infos:
            if info.device_id in byid:
                self.v(["C06"], "duplicate-device", f"two entries for device {info.device_id} of {jid}")
            byid[info.device_id] = info
        for did, d in list(m.devs.get(jid, {}).items()):
            if did in byid or not d.maybe_known:
                continue
            tried = self.attempts(op, jid, did)
            if d.ik == {None}:
                if d.is_known and any(r.status == "ok" for r in tried):
                    self.v(["C06"], "device-dropped", f"device {did} of {jid} not reported although its bundle was downloaded")
                elif d.is_known and not tried and any(True in d.a(ns) and len(d.a(ns)) == 1 for ns in self.allns):
                    self.v(["C06"], "device-dropped", f"device {did} of {jid} not reported, without trying to download its bundle")
                elif d.is_known and not op.par and self.untried(node, d, tried):
                    self.v(["C06"], "device-dropped", f"device {did} of {jid} not reported, without trying to download its bundle "
                           f"for {self.untried(node, d, tried)}")
            elif d.is_known and None not in d.ik:
                self.v(["C06", "C14"], "device-dropped", f"known device {did} of {jid} is gone")
            elif None not in d.ik:
                d.known = {False}
        for did, info in byid.items():
            self.check_device(node, info, op)

    def check_device(self, node, info, op, collapse=True):
        m = node.model
        d = m.devs.get(info.bare_jid, {}).get(info.device_id)
        if d is None or not d.maybe_known:
            self.v(["C06", "C14"], "device-invented", f"device {info.device_id} of {info.bare_jid} reported, which was never listed")
            return
        if info.identity_key not in d.ik:
            self.v(["C06", "C14"] + (["C18"] if info.device_id == node.own_id and info.bare_jid == node.jid else []), "identity-key-wrong",
                   f"identity key {info.identity_key.hex()[:8]} of {info.bare_jid}/{info.device_id}, "
                   f"expected {[x.hex()[:8] if x else x for x in d.ik]}")
        active = dict(info.active)
        for ns in self.allns:
            got = active.get(ns, "?") if ns in info.namespaces else None
            if got not in d.a(ns):
                own = info.device_id == node.own_id and info.bare_jid == node.jid
                self.v(["C06"] + (["C08", "C09"] if own else []), "status-wrong",
                       f"{info.bare_jid}/{info.device_id} for {ns}: {got} (None: not supported), expected {sorted(map(str, d.a(ns)))}")
            elif collapse:
                d.act[ns] = {got}
        if info.label not in d.label:
            own = info.device_id == node.own_id and info.bare_jid == node.jid
            self.v(["C06"] + (["C07"] if own else []), "label-wrong",
                   f"label {info.label!r} of {info.bare_jid}/{info.device_id}, expected {sorted(map(str, d.label))}")
        trust = m.get_trust(info.bare_jid, info.identity_key)
        if info.trust_level_name not in trust:
            self.v(["C17", "C14"], "trust-wrong", f"trust level {info.trust_level_name!r} of {info.bare_jid}/{info.device_id}, "
                   f"expected {sorted(trust)}")
        if collapse:
            d.known, d.label, d.ik = {True}, {info.label}, {info.identity_key}
            m.trust[(info.bare_jid, info.identity_key)] = {info.trust_level_name}

    def resolve(self, node, jids):
        """After failures: ask for the actual state (which must be one of the candidates)."""
        for jid in jids:
            if node.mgr is not None and not (node.model.certain(jid) and all(
                len(node.model.get_trust(jid, ik)) == 1 for d in node.model.devs.get(jid, {}).values() for ik in d.ik if ik
            )):
                self.hit("resolve")
                op, check = self.op_info(node, {"op": "info", "n": node.idx, "id": f"resolve{self.opn}"}, False, jid=jid)
                if self.wait([op]):
                    check(op)

    # ------------------------------------------------------------------ trust
    def pick_dev(self, node, r, jid=None, need_ik=True):
        c = sorted((j, i) for j, ds in node.model.devs.items() for i, d in ds.items()
                   if (jid is None or j == jid) and d.is_known and (not need_ik or (len(d.ik) == 1 and None not in d.ik))
                   and (j, i) != (node.jid, node.own_id))
        return c[r % len(c)] if c else None

    def op_trust(self, node, spec, par):
        if node.mgr is None:
            return None
        ext = [n for n in self.world.nodes if n is not node and n.ik is not None]
        if spec.get("ext") and ext:
            # trust imported for a key, whether or not the device is known already
            jid, ik = ext[spec["r"] % len(ext)].jid, ext[spec["r"] % len(ext)].ik
            self.hit("trust_imported")
        else:
            t = self.pick_dev(node, spec["r"])
            if t is None:
                return None
            jid, did = t
            ik = next(iter(node.model.devs[jid][did].ik))
        name = spec["level"]
        mgr = node.mgr
        op = self.execute(node, spec, lambda: mgr.set_trust(jid, ik, name), {"set": (jid, ik, name)}, par)

        def check(op):
            if op.crashed:
                node.model.set_trust(jid, ik, name, False)
            if op.exc is not None and not (op.disk_failed and isinstance(op.exc, StorageException)):
                self.unexpected(op, "success")
        return op, check

    def ret_trust(self, op):
        if "set" in op.ctx:
            op.node.model.set_trust(*op.ctx["set"], op.exc is None)

    # ------------------------------------------------------------------ loading
    def op_boot(self, node, spec, par):
        w = self.world
        if node.mgr is not None or node.inc is not None:
            if node.ops:
                return None
            w.fired("restart")
            node.down()
        order = [self.allns[i % len(self.allns)] for i in spec["ns"]]
        order = list(dict.fromkeys(order))
        if spec.get("bad") and not par:
            self.bad_config(node, spec, order)
        inc = object()
        node.inc = inc
        node.bg = Bg()
        node.loading = order
        storage = node.storage = SimStorage(node, inc, spec.get("cache", node.cfg["cache"]))
        backends = []
        for ns in order:
            lim = self.limits(node, ns)
            b = self.backend(node, storage, ns)
            ms = 1000 if lim[0] is None else lim[0]
            mm = ms if lim[1] is None else lim[1]
            if (b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys) != (ms, mm):
                self.v(["C20"], "limits-wrong", f"configured limits {lim}, backend applies "
                       f"{(b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys)}")
            backends.append(b)
        cls = make_manager_class(node, inc)
        node.thr, node.period = spec.get("thr", node.cfg["thr"]), spec.get("period", node.cfg["period"])
        pre = self.snap(node)
        node.backends = {b.namespace: b for b in backends}
        ctx = {"pre": pre, "lists": dict(w.server.lists), "done_before": set(node.setup_done)}
        given = list(backends)

        # the initial label matters on the first run only
        own = node.model.devs.get(node.jid, {}).get(node.own_id)
        label = spec.get("label", node.cfg["label"]) if own is not None and own.is_known else node.cfg["label"]
        kw = {"signed_pre_key_rotation_period": node.period, "pre_key_refill_threshold": node.thr,
              "async_framework": AsyncFramework.TWISTED if node.fw == "t" else AsyncFramework.ASYNCIO}
        for k, default in (("signed_pre_key_rotation_period", 604800), ("pre_key_refill_threshold", 99),
                           ("async_framework", AsyncFramework.ASYNCIO)):
            if kw[k] == default:
                del kw[k]           # the documented defaults

        async def create():
            return await cls.create(backends, storage, node.jid, label, node.cfg["und"], **kw)
        node.boots += 1
        op = self.execute(node, dict(spec, op="boot"), create, ctx, par)

        def check(op):
            if backends != given:
                self.v(["C09"], "argument-mutated", "create modified the list of backends it was given")
            self.check_boot(op, order)
        return op, check

    def backend(self, node, storage, ns):
        try:
            b = stub.SimBackend(node, storage, ns, self.limits(node, ns))
            b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys  # pylint: disable=pointless-statement
            return b
        except Exception as e:      # pylint: disable=broad-except
            self.v(["C20"], "limits-refused", f"limits {self.limits(node, ns)} (per session, per message) refused: {e!r}")
            return stub.SimBackend(node, storage, ns, (None, None))

    def bad_config(self, node, spec, order):
        """Attempts to load with an invalid configuration."""
        bad = spec["bad"]
        inc = node.inc = object()
        storage = SimStorage(node, inc, False)
        if bad[0] == "limits":
            try:
                stub.SimBackend(node, storage, self.allns[0], tuple(bad[1:]))
                self.v(["C20"], "limits-accepted", f"invalid limits {bad[1:]} (per session, per message) accepted")
            except ValueError:
                self.hit("bad_limits_refused")
            node.inc = None
            return
        backends = [self.backend(node, storage, ns) for ns in order]
        thr = bad[1]
        if bad[0] == "dup":
            at = bad[2] % (len(order) + 1)
            backends.insert(at, self.backend(node, storage, (order or self.allns)[bad[3] % len(order or self.allns)]))
            if not order:
                backends *= 2
        pre = dict(node.disk)
        cls = make_manager_class(node, inc)
        node.loading = order
        label = node.cfg["label"]
        op = self.execute(node, {"op": "badcfg", "n": node.idx, "id": f"bad{spec['id']}"}, lambda: cls.create(
            backends, storage, node.jid, label, node.cfg["und"], node.period, thr,
            AsyncFramework.TWISTED if node.fw == "t" else AsyncFramework.ASYNCIO
        ))
        if not self.wait([op]):
            return
        node.loading = None
        what = f"{bad[0]}: backends {[b.namespace for b in backends]}, threshold {thr}"
        if not isinstance(op.exc, ValueError):
            self.v(["C23"], "bad-config-accepted", f"loading with an invalid configuration ({what}) ended with {op.exc!r}")
        elif pre != node.disk or op.recs:
            self.v(["C23"], "bad-config-side-effects", f"loading with an invalid configuration ({what}) was refused, but not without effect")
        else:
            self.hit("bad_config_refused")
            node.inc = None
            return
        self.collision = True       # anything may follow
        node.down()

    def ret_boot(self, op):
        node = op.node
        if op.exc is None and not op.crashed:
            node.mgr = op.result
            node.loaded = list(node.loading)
            node.loading = None
            view = self.view(node)
            for ns in node.loaded:
                st = view.state(ns)
                age = node.clock() - st["ts"] if st else 0.0
                node.bg.base[ns] = age
                node.bg.s0[ns] = node.bg.stall(self.world.loop.time())
            # PEP sends the current device lists on login
            for (ns, jid), lst in sorted(self.world.server.lists.items()):
                node.notifs.append((ns, jid, dict(lst)))

    def check_boot(self, op, order):
        w, node, m = self.world, op.node, op.node.model
        srv = w.server
        got = self.downloaded(op, {node.jid})
        last = {}
        for i, (ns, jid, lst) in enumerate(got):
            last[ns] = i
        pre = op.ctx["pre"]
        if not op.ok:
            node.loading = None
            if not node.announced and self.cfg["ids"]:
                # The id of an interrupted first run is abandoned. That another device gets just this id (which would be taken
                # for the device of the interrupted run) happens with forced ids only.
                self.abandoned = True
                URANDOM.words.clear()
            if op.exc is not None and not self.explained(op):
                self.unexpected(op, types(op.fired))
            if not op.crashed:
                node.down()
            if node.own_id is not None:
                own = self.own_dev(node)
                for ns in self.allns:
                    own.act[ns] = own.a(ns) | {None, True, False}
            for ns, jid, lst in got:
                m.feed(jid, ns, lst, certain=False)
            self.learn(op)
            self.boot_progress(op, order)
            return
        self.hit("boot_ok")
        self.redone_check(op, order)
        node.setup_done = set()
        first = not node.booted
        node.booted = True
        # who am I
        own_op = self.execute(node, {"op": "own", "n": node.idx, "id": f"own{op.id}"}, node.mgr.get_own_device_information)
        if not self.wait([own_op]):
            return
        if own_op.exc is not None:
            self.unexpected(own_op, "own device information")
            return
        info, others = own_op.result
        self.own_id_seen(node, info.device_id, op, "own device information")
        self.ik_seen(node, info.identity_key, "own device information")
        for other in others:
            if other.device_id == node.own_id:
                self.v(["C06"], "own-among-others", "own device listed among the other own devices")
        # the model of the own account
        own = self.own_dev(node)
        certain_lists = []
        for i, (ns, jid, lst) in enumerate(got):
            if last[ns] != i:
                m.feed(jid, ns, {node.own_id: None, **lst}, certain=False)
            elif ns in order:
                certain_lists.append((ns, jid, lst))
        # a list is fed only if the backend was newly set up
        fresh = {r.ns for r in op.recs if r.kind == "ub"}
        self.fed(op, [x for x in certain_lists if x[0] in fresh], strict=False)
        own = m.dev(node.jid, node.own_id)
        for ns in self.allns:
            own.act[ns] = {True} if ns in order else {None}
        self.learn(op)
        self.learn(own_op)
        self.check_device(node, info, own_op)
        if set(info.namespaces) != set(order) or not all(dict(info.active).get(ns) for ns in order):
            self.v(["C08", "C09"], "own-information-wrong", f"own device information: namespaces {sorted(info.namespaces)}, active "
                   f"{sorted(info.active)}, loaded {order}")
        view = self.view(node)
        for ns in order:
            lst = srv.get_list(ns, node.jid)
            if node.own_id not in lst and ((ns in fresh and not op.par)
                                           or (srv.list_writer.get((ns, node.jid)) is node and ns not in node.misinformed)):
                self.v(["C08", "C09"], "not-listed", f"loading succeeded, but the device is not in the device list of {ns}: {lst}")
            st = view.state(ns)
            bundle = srv.bundles.get((ns, node.jid, node.own_id))
            if (ns, node.own_id) not in node.bundle_tampered:
                if bundle is None:
                    self.v(["C08", "C09"], "no-bundle", f"loading succeeded, but there is no bundle published for {ns}")
                elif ns in fresh and bundle != self.local_bundle(node, ns) and self.bg_settled(node, ns):
                    self.v(["C08", "C10"], "bundle-differs", f"bundle published while loading differs from the local one for {ns}")
            if ns in fresh and (st is None or len(st["pk"]) <= node.thr or len(st["pk"]) > 100):
                self.v(["C08", "C10"], "pre-keys-missing", f"{ns} set up with {len(st['pk']) if st else 0} pre keys")
            if ns in fresh and bundle is not None and not bundle.pks:
                self.v(["C08", "C10"], "pre-keys-missing", f"{ns}: bundle published without pre keys")
        for ns in sorted(node.ever - set(order)):
            self.hit("backend_removed_by_load")
            lst = srv.get_list(ns, node.jid)
            if node.own_id in lst and srv.list_writer.get((ns, node.jid)) is node:
                self.v(["C09"], "removed-still-listed", f"{ns} was not loaded, but the device is still in its device list")
            if (ns, node.jid, node.own_id) in srv.bundles and (ns, node.own_id) not in node.bundle_tampered:
                self.v(["C09"], "removed-bundle-online", f"{ns} was not loaded, but its bundle is still published")
            node.ever.discard(ns)
        for ns in self.allns:
            if ns not in order and pre.raw(ns) != view.raw(ns):
                self.v(["C09"], "unloaded-data-touched", f"offline data of {ns} changed, although it is not loaded")
        # other entries of the own lists are kept
        if not op.par:
            for ns in self.allns:
                before = op.ctx["lists"].get((ns, node.jid), {})
                after = srv.get_list(ns, node.jid)
                b2 = {k: x for k, x in before.items() if k != node.own_id}
                a2 = {k: x for k, x in after.items() if k != node.own_id}
                if b2 != a2 and not self.late_write(op, ns, node.jid):
                    self.v(["C07", "C09"], "foreign-entries-changed", f"{ns}: loading changed the list entries of other devices: {b2} -> {a2}")

    def own_dev(self, node):
        """The own device is stored by the first run, with the initial label, before anything is published."""
        own = node.model.dev(node.jid, node.own_id)
        if not own.is_known:
            own.known, own.label, own.ik = {True}, {node.cfg["label"]}, {node.ik}
        return own

    def boot_progress(self, op, order):
        """Which set ups completed in a failed attempt: the device was listed, then work on the next backend began."""
        listed = set()
        for r in op.recs:
            if r.kind == "ub":
                node_done = {ns for ns in listed if ns != r.ns}
                op.node.setup_done |= node_done
            elif r.kind == "ul" and r.status == "ok" and op.node.own_id in r.arg:
                listed.add(r.ns)
            elif r.kind == "dl" and r.status == "ok" and op.node.own_id in r.result and r.ns in {x.ns for x in op.recs if x.kind == "ub" and x.status == "ok"}:
                listed.add(r.ns)
        self.redone_check(op, order)

    def redone_check(self, op, order):
        done = op.ctx.get("done_before", set())
        view = self.view(op.node)
        for ns in done:
            if ns in order and any(r.kind == "ub" and r.ns == ns for r in op.recs):
                self.v(["C08"], "setup-redone", f"set up of {ns} had been completed, but was repeated")

    # ------------------------------------------------------------------ removal
    def op_purge_ns(self, node, spec, par):
        if node.mgr is None:
            return None
        ns = self.allns[spec["ns"] % len(self.allns)]
        if ns in node.loaded and len(node.loaded) == 1 and not spec.get("last"):
            return None
        was_loaded = ns in node.loaded
        pre = self.snap(node)
        before = self.world.server.get_list(ns, node.jid)
        mgr = node.mgr
        op = self.execute(node, spec, lambda: mgr.purge_backend(ns), par=par)

        def check(op):
            srv, m = self.world.server, node.model
            self.learn(op)
            own = m.dev(node.jid, node.own_id)
            view = self.view(node)
            after = srv.get_list(ns, node.jid)
            if {k: x for k, x in before.items() if k != node.own_id} != {k: x for k, x in after.items() if k != node.own_id} and \
                    not self.late_write(op, ns, node.jid):
                self.v(["C09"], "foreign-entries-changed", f"{ns}: purging changed the list entries of other devices: {before} -> {after}")
            for other in self.allns:
                if other != ns and not self.same_but_rotation(pre.raw(other), view.raw(other)):
                    self.v(["C09"], "other-backend-touched", f"purging {ns} changed the offline data of {other}")
            if not was_loaded and pre.raw(ns) != view.raw(ns):
                self.v(["C09"], "unloaded-data-touched", f"offline data of {ns} changed, although it is not loaded")
            if op.ok:
                self.hit("purge_backend_ok")
                node.loaded = [x for x in node.loaded if x != ns]
                self.bg_forget(node, ns)
                own.act[ns] = {None}
                node.ever.discard(ns)
                for q in [q for q in m.queue if q[0] == ns]:
                    if was_loaded:
                        del m.queue[q]
                    else:
                        m.queue[q] = "may"
                if node.own_id in after:
                    self.v(["C09"], "purged-still-listed", f"{ns} purged, but the device is still in its device list")
                if (ns, node.jid, node.own_id) in srv.bundles:
                    self.v(["C09"], "purged-bundle-online", f"{ns} purged, but its bundle is still published")
                if was_loaded and not op.par and not node.messy and any(f"/{ns}/" in k + "/" for k in node.disk):
                    self.v(["C09"], "purged-data-left", f"{ns} purged, but data is left: {[k for k in node.disk if f'/{ns}/' in k + '/'][:3]}")
                if was_loaded and view.raw(ns):
                    self.v(["C09"], "purged-data-left", f"{ns} purged, but offline data is left: {sorted(view.raw(ns))}")
                if not op.par:
                    own_op = self.execute(node, {"op": "own", "n": node.idx, "id": f"own{op.id}"}, mgr.get_own_device_information)
                    alive = self.wait([own_op])
                    self.learn(own_op)
                    if alive and own_op.exc is None and (ns in own_op.result[0].namespaces or ns in dict(own_op.result[0].active)):
                        self.v(["C09"], "purged-still-known", f"{ns} purged, but still part of the own device information: {own_op.result[0]}")
            else:
                own.act[ns] = own.a(ns) | {None, False, True}
                if op.exc is not None and not self.explained(op):
                    self.unexpected(op, types(op.fired))
                if isinstance(op.exc, BundleDeletionFailed):
                    node.loaded = [x for x in node.loaded if x != ns]
                    self.bg_forget(node, ns)
                    for q in [q for q in m.queue if q[0] == ns]:
                        m.queue[q] = "may"
                elif isinstance(op.exc, StorageException) and not op.crashed:
                    node.down()
                    for q in [q for q in m.queue if q[0] == ns]:
                        m.queue[q] = "may"
                if op.crashed:
                    for q in [q for q in m.queue if q[0] == ns]:
                        m.queue[q] = "may"
        return op, check

    def same_but_rotation(self, a, b):
        if a == b:
            return True
        if set(a) != set(b):
            return False
        for k in a:
            if a[k] != b[k]:
                if not k.endswith("/state"):
                    return False
                x, y = json.loads(json.loads(a[k])), json.loads(json.loads(b[k]))
                for z in (x, y):
                    for f in ("spk", "old", "ts"):
                        z.pop(f)
                if x != y:
                    return False
        return True

    def op_bpurge(self, node, spec, par):
        """The application removes the sessions with an account from one backend directly, which is allowed at any time."""
        jids = [j for j in self.cfg["jids"] if j != node.jid]
        if node.mgr is None or not node.loaded:
            return None
        jid, backend = jids[spec["jid"] % len(jids)], node.backends[node.loaded[spec["r"] % len(node.loaded)]]

        async def purge():
            try:
                await backend.purge_bare_jid(jid)
            except KeyError:
                pass
        op = self.execute(node, spec, purge, {}, par=par)

        def check(op):
            if op.ok and any(q[:2] == (backend.namespace, jid) for q in node.model.queue):
                self.hit("queued_without_session")
        return op, check

    def op_purge_jid(self, node, spec, par):
        if node.mgr is None:
            return None
        jids = [j for j in self.cfg["jids"] if j != node.jid]
        if not jids:
            return None
        jid = jids[spec["jid"] % len(jids)]
        mgr = node.mgr
        others = [self.backend(node, node.storage, ns) for ns in self.allns if ns not in node.loaded]
        ctx = {"pre": self.snap(node)}

        async def purge():
            # the library takes care of the loaded backends only, as documented
            for b in others:
                try:
                    await b.purge_bare_jid(jid)
                except KeyError:
                    pass
            ctx["pre"] = self.snap(node)
            await mgr.purge_bare_jid(jid)
        op = self.execute(node, spec, purge, ctx, par=par)

        def check(op):
            m = node.model
            view, pre = self.view(node), ctx["pre"]
            # a backend that fails does not keep the rest from being removed
            done = op.ok or (isinstance(op.exc, KeyError) and node.cfg.get("keyerr"))
            known = {ik for d in m.known(jid).values() for ik in d.ik}
            foreign = any(j == jid and ik not in known for j, ik in m.trust)       # trust of keys that belong to no known device
            m.purge(jid, done)
            for ns in node.loaded or self.allns:
                a, b = pre.sessions(ns), view.sessions(ns)
                mine = {k for k in set(a) | set(b) if k.rsplit("/", 1)[0] == jid}
                if {k: x for k, x in a.items() if k not in mine} != {k: x for k, x in b.items() if k not in mine}:
                    self.v(["C14"], "other-sessions-touched", f"purging {jid} changed sessions with other accounts")
                if done and ns in node.loaded and any(k in b for k in mine):
                    self.v(["C14"], "sessions-left", f"purging {jid} left sessions in {ns}")
            for ns in self.allns:
                a, b = pre.raw(ns), view.raw(ns)
                strip = lambda x: {k: y for k, y in x.items() if "/s/" not in k and not k.endswith("/idx")}
                if not self.same_but_rotation(strip(a), strip(b)):
                    self.v(["C14"], "backend-touched", f"purging {jid} changed other data of {ns}")
            if done:
                self.hit("purge_jid_ok")
                if not op.ok:
                    self.hit("purge_backend_failing")
            for q in [q for q in m.queue if q[1] == jid]:
                if done and q[0] in node.loaded:
                    del m.queue[q]
                else:
                    m.queue[q] = "may"
            if done and not op.par and not node.messy and not foreign:
                left = [k for k, x in node.disk.items() if (f"/{jid}/" in k + "/" or json.dumps(jid) in x)
                        and not any(ns in k for ns in self.allns if ns not in node.loaded)]
                if left:
                    self.v(["C14"], "data-left", f"purging {jid} left data behind: {sorted(left)[:4]}")
            if op.exc is not None and not done and not self.explained(op):
                self.unexpected(op, "success")
        return op, check

    # ------------------------------------------------------------------ label and consistency
    def op_label(self, node, spec, par):
        if node.mgr is None:
            return None
        label = spec["label"]
        before = {ns: self.world.server.get_list(ns, node.jid) for ns in self.allns}
        mgr = node.mgr
        op = self.execute(node, spec, lambda: mgr.set_own_label(label), par=par)

        def check(op):
            if op.par:
                self.par_feeds.append((op.seq, node, ("label", label, op.ok or (not op.crashed and not op.disk_failed))))
            else:
                own = node.model.dev(node.jid, node.own_id)
                own.label = {label} if op.ok else own.label | {label}
            if op.exc is not None and not self.explained(op):
                self.unexpected(op, "success")
            if op.par:
                return
            for ns in self.allns:
                if self.late_write(op, ns, node.jid):
                    continue
                after = self.world.server.get_list(ns, node.jid)
                want = {**before[ns], node.own_id: label}
                if ns not in node.loaded and node.mgr is not None:
                    if after != before[ns]:
                        self.v(["C07", "C09"], "label-unloaded", f"setting the label changed the list of {ns}, which is not loaded")
                elif op.ok and after != want:
                    self.v(["C07"], "label-not-published", f"{ns}: list {after} after setting the label, expected {want}")
                elif after not in (want, before[ns]):
                    self.v(["C07"], "label-list-damaged", f"{ns}: list {after} after setting the label, expected {want}")
        return op, check

    def op_ensure(self, node, spec, par):
        if node.mgr is None:
            return None
        srv = self.world.server
        before = {ns: srv.get_list(ns, node.jid) for ns in node.loaded}
        bundles = {ns: srv.bundles.get((ns, node.jid, node.own_id)) for ns in node.loaded}
        pre = self.snap(node)
        mgr = node.mgr
        settled = {ns: self.bg_settled(node, ns) for ns in node.loaded}
        op = self.execute(node, spec, lambda: mgr.ensure_data_consistency(), par=par)

        def check(op):
            self.fed(op, self.downloaded(op, {node.jid}))
            self.list_result(op)
            view = self.view(node)
            for ns in self.allns:
                if not op.par and not self.same_but_rotation(pre.raw(ns), view.raw(ns)):
                    self.v(["C13"], "consistency-changed-local", f"ensuring consistency changed local data of {ns}")
            if not op.ok or op.par:
                return
            self.hit("ensure_ok")
            for ns in node.loaded:
                after = srv.get_list(ns, node.jid)
                if self.late_write(op, ns, node.jid):
                    continue
                if node.own_id not in after or any(after.get(k, "?") != x for k, x in before[ns].items()) or \
                        set(after) - {node.own_id} != set(before[ns]) - {node.own_id}:
                    self.v(["C13", "C07"], "consistency-list", f"{ns}: list {before[ns]} became {after}")
                if not (settled[ns] and self.bg_settled(node, ns)):
                    continue
                local = self.local_bundle(node, ns)
                if srv.bundles.get((ns, node.jid, node.own_id)) != local:
                    self.v(["C13"], "consistency-bundle", f"{ns}: published bundle differs from the local one after ensuring consistency")
                ups = [r for r in op.recs if r.kind == "ub" and r.ns == ns]
                downs = [r for r in op.recs if r.kind == "db" and r.ns == ns and r.dev == node.own_id and r.jid == node.jid]
                if ups and bundles[ns] == self.local_bundle(node, ns, pre) == local and all(r.status == "ok" for r in downs):
                    self.v(["C13"], "consistency-needless-upload", f"{ns}: bundle uploaded although it was up to date")
                if bundles[ns] != local:
                    self.hit("ensure_repaired_bundle")
        return op, check

    # ------------------------------------------------------------------ history synchronization
    def op_sync_begin(self, node, spec, par):
        if node.mgr is None:
            return None
        node.mgr.before_history_sync()
        node.model.sync = True
        return None

    def op_sync_end(self, node, spec, par):
        if node.mgr is None:
            return None
        mgr, m = node.mgr, node.model
        pre = self.snap(node)
        loaded = list(node.loaded)
        m.sync = False
        op = self.execute(node, spec, lambda: mgr.after_history_sync(), par=par)

        def check(op):
            view = self.view(node)
            sends = [r for r in op.recs if r.kind == "sm"]
            seen, queued = set(), {}
            for q in m.queue:
                queued.setdefault(q[0], set()).add(f"{q[1]}/{q[2]}")
            for r in sends:
                keys = list(r.arg.keys)
                if len(keys) != 1:
                    self.v(["C12"], "empty-message-shape", f"empty message with {len(keys)} keys")
                    continue
                ekm = keys[0][0]
                q = (r.arg.namespace, ekm.bare_jid, ekm.device_id)
                if ekm.bare_jid != r.jid:
                    self.v(["C12"], "empty-message-misrouted", f"empty message for {ekm.bare_jid} sent to {r.jid}")
                if q in seen:
                    self.v(["C12"], "empty-message-twice", f"two empty messages to {q} when synchronization ended")
                if q not in m.queue and q not in op.ctx.get("peers", ()):
                    self.v(["C12"], "empty-message-unneeded", f"empty message to {q}, which did not need one")
                seen.add(q)
                self.check_key(node, pre, r.arg.namespace, ekm, keys[0][1])
            for q, how in list(m.queue.items()):
                if q[0] not in loaded:
                    continue
                mine = [r for r in sends if next(iter(r.arg.keys))[0].bare_jid == q[1] and r.arg.namespace == q[0]
                        and next(iter(r.arg.keys))[0].device_id == q[2]]
                has_session = pre.session(*q) is not None
                if op.ok:
                    if how == "must" and has_session and not mine:
                        self.v(["C12", "C21"], "empty-message-missing", f"no empty message to {q} when synchronization ended")
                    if mine:
                        self.hit("deferred_empty_sent")
                    del m.queue[q]
                elif mine and mine[-1].status == "ok":
                    if op.crashed or op.disk_failed:
                        m.queue[q] = "may"
                    else:
                        del m.queue[q]
                elif op.crashed and mine:
                    pass            # outcome unknown to the library, stays queued
                elif not has_session:
                    m.queue[q] = "may"
                else:
                    if mine:
                        self.hit("empty_send_failed_requeued")
            for ns in loaded:
                if op.par:
                    break
                st = view.state(ns)
                # synchronization ends even if an empty message can not be sent, which is queued for the next end then
                ended = op.ok or (isinstance(op.exc, MessageSendingFailed) and not op.crashed and not op.disk_failed)
                if ended and st is not None and st["hid"]:
                    self.v(["C10"], "hidden-pre-keys-left", f"{ns}: {len(st['hid'])} hidden pre keys left after synchronization")
                a, b = pre.state(ns), st
                if a is not None and b is not None:
                    if sorted(a["pk"]) != sorted(b["pk"]):
                        self.v(["C10"], "pre-keys-changed", f"{ns}: ending synchronization changed the published pre keys")
                    if not set(b["hid"]) <= set(a["hid"]):
                        self.v(["C10"], "pre-keys-changed", f"{ns}: ending synchronization hid pre keys")
                if a is not None and a["hid"]:
                    self.hit("hidden_pre_keys_deleted")
                advanced = {r_key(r) for r in sends if r.arg.namespace == ns}
                if op.crashed or op.disk_failed:
                    advanced |= queued.get(ns, set())
                self.sessions_check(op, pre, view, ns, advanced, {})
            if op.exc is not None and not self.explained(op):
                self.unexpected(op, types(op.fired))
            if op.ok and MessageSendingFailed in op.fired:
                self.v(["C12"], "send-failure-swallowed", "sending an empty message failed, but leaving synchronization succeeded")
        return op, check

    def check_key(self, node, pre, ns, ekm, kex):
        """The key exchange must be attached exactly while the session is unconfirmed."""
        st = pre.session(ns, ekm.bare_jid, ekm.device_id)
        if st is None or st["sid"] != ekm.sid:
            return
        need = st["ini"] == "A" and not st["conf"]
        if need != (kex is not None):
            self.v(["C04", "C02"], "key-exchange-attachment", f"message to {ekm.bare_jid}/{ekm.device_id}: key exchange "
                   f"{'missing although unconfirmed' if need else 'attached to a confirmed session'}")

    def sessions_check(self, op, pre, view, ns, advanced, replaced):
        """
        Only the sessions in ``advanced`` (encrypted with; {"jid/dev"}) moved forward and only those in ``replaced`` (name -> expected
        state) changed otherwise.
        """
        a, b = pre.sessions(ns), view.sessions(ns)
        for name in set(a) | set(b):
            if a.get(name) == b.get(name) or name in replaced:
                continue
            x = json.loads(json.loads(a[name])) if name in a else None
            y = json.loads(json.loads(b[name])) if name in b else None
            if name in advanced and x is not None and y is not None:
                z = dict(x)
                if z["ns"] <= y["ns"] <= z["ns"] + 1:
                    z["ns"] = y["ns"]
                if z == y:
                    continue
            self.v(["C05"] + (["C04"] if x is not None else []), "session-changed", f"{op.kind}: session with {name} in {ns} changed unexpectedly")

    # ------------------------------------------------------------------ encryption
    def op_enc(self, node, spec, par):
        if node.mgr is None:
            return None
        jids = {self.cfg["jids"][i % len(self.cfg["jids"])] for i in spec["to"]}
        if not par:
            self.resolve(node, sorted(jids | {node.jid}))
            if node.mgr is None:
                return None
        mode = spec["prio"]
        if mode == 0:
            prio = None
        elif mode == 1:
            prio = list(reversed(node.loaded))
        elif mode == 2:
            prio = [node.loaded[spec["r"] % len(node.loaded)]] if node.loaded else []
        elif mode == 3:
            prio = list(node.loaded) + ["urn:unknown"]
        else:
            prio = [ns for ns in self.allns if int(H(spec["id"], ns)[:4], 16) % 3]
        plaintext = {ns: f"pt-{spec['id']}-{ns}-{self.opn}".encode() for ns in node.loaded}
        ident = spec["ident"]
        pre = self.snap(node)
        mgr = node.mgr
        given = (frozenset(jids), dict(plaintext), None if prio is None else list(prio))
        ctx = {"pre": pre, "jids": jids, "prio": prio, "plaintext": plaintext, "loaded": list(node.loaded),
               "trust_pre": {k: set(x) for k, x in node.model.trust.items()}}
        op = self.execute(node, spec, lambda: mgr.encrypt(given[0], plaintext, prio, ident), ctx, par)

        def check(op):
            if plaintext != given[1] or prio != given[2]:
                self.v(["C02"], "argument-mutated", "encrypt modified its arguments")
            if not par:
                self.check_enc(op)
        return op, check

    def ret_enc(self, op):
        """At the moment the messages leave the library."""
        if op.exc is not None:
            return
        node = op.node
        messages, errors = op.result
        alone = len(node.ops) == 0
        for m in messages:
            self.release(node, m, exempt=False, alone=alone)
            if not op.spec.get("lost"):
                self.world.route(m, sorted(op.ctx["jids"] | {node.jid}), node, op.ctx["plaintext"].get(m.namespace))
            else:
                self.world.fired("msg_lost")

    def bundle_outcome(self, op, ns, jid, did):
        """What the library was told about this bundle in this operation: list of bundles / exception classes."""
        return [r.result if r.status == "ok" else type(r.exc) for r in op.recs
                if r.kind == "db" and (r.ns, r.jid, r.dev) == (ns, jid, did) and r.status in ("ok", "err")]

    def check_enc(self, op):
        node, m, ctx = op.node, op.node.model, op.ctx
        pre, view = ctx["pre"], self.view(node)
        prio = ctx["prio"] if ctx["prio"] is not None else ctx["loaded"]
        self.hit("enc")
        storage_failed = op.disk_failed or op.crashed
        if not storage_failed and set(prio) - set(ctx["loaded"]):
            if not isinstance(op.exc, UnknownNamespace):
                self.unexpected(op, "UnknownNamespace", ["C09"])
            if op.recs or op.asks:
                self.v(["C02"], "refused-with-effects", "encryption with an unknown namespace had effects")
            return
        jids = ctx["jids"] | {node.jid}
        # eligible devices
        devices, vague = {}, False
        for jid in sorted(jids):
            for did, d in sorted(m.devs.get(jid, {}).items()):
                if not d.maybe_known or (jid, did) == (node.jid, node.own_id):
                    continue
                tried = self.attempts(op, jid, did)
                learned = [r.result.identity_key for r in tried if r.status == "ok"]
                active = [ns for ns in prio if d.a(ns) == {True}]
                maybe_active = [ns for ns in prio if True in d.a(ns)]
                ik = None
                if len(d.ik) == 1 and None not in d.ik:
                    ik = next(iter(d.ik))
                elif learned:
                    ik = learned[0]
                if not d.certain and (tried or ik is not None) or len(ctx.get("group_iks", {}).get((jid, did), ())) > 1:
                    vague = True
                if ik is None:
                    if active and not storage_failed and d.is_known and (
                            not any(r.ns in active for r in tried) or not op.par and self.untried(node, d, tried)):
                        self.v(["C02", "C06"], "device-ignored", f"device {did} of {jid} ignored without trying to fetch its bundle")
                    continue
                if active:
                    devices[(jid, did)] = (active[0], ik)
        self.learn(op)
        # trust before and after
        sets = dict(op.trust_sets)
        before = {}
        after = {k: m.get_trust(k[0], ik) for k, (ns, ik) in devices.items()}
        for k, (ns, ik) in devices.items():
            b = after[k]
            if (k[0], ik) in sets:
                b = op.ctx["trust_pre"].get((k[0], ik), {m.undecided})
            before[k] = b
            if len(b) != 1 or len(after[k]) != 1:
                vague = vague or not op.asks
                if len(b) != 1:
                    vague = True
        self.enc_invariants(op, devices, after)
        self.enc_sessions(op, devices, pre, view)
        if storage_failed:
            if op.exc is not None and not isinstance(op.exc, StorageException) and not isinstance(op.exc, TrustDecisionFailed):
                if type(op.exc) not in (StillUndecided, NoEligibleDevices, UnknownTrustLevel, UnknownNamespace):
                    self.unexpected(op, "StorageException")
            return
        if vague:
            self.hit("enc_vague")
            return
        name0 = {k: next(iter(x)) for k, x in before.items()}
        name1 = {k: next(iter(x)) for k, x in after.items()}
        # expected course
        if any(x not in LEVELS for x in name0.values()):
            if not isinstance(op.exc, UnknownTrustLevel):
                self.unexpected(op, "UnknownTrustLevel", ["C01"])
            return
        undecided = {k for k, x in name0.items() if LEVELS[x] is TrustLevel.UNDECIDED}
        asked = [{(d.bare_jid, d.device_id) for d in a[0]} for a in op.asks]
        if asked != ([undecided] if undecided else []):
            self.v(["C01"], "trust-request", f"trust decision requests {asked}, expected one for {undecided or 'nothing'}")
        for u, ident in op.asks:
            if ident != op.spec["ident"]:
                self.v(["C01"], "trust-identifier", f"identifier {ident!r} instead of {op.spec['ident']!r}")
            for d in u:
                if (d.bare_jid, d.device_id) in devices and d.identity_key != devices[(d.bare_jid, d.device_id)][1]:
                    self.v(["C01", "C17"], "trust-request", f"trust decision requested on a wrong identity key for {d.device_id}")
        if undecided:
            self.hit("trust_asked")
        if undecided and op.spec["policy"] == "fail":
            if not isinstance(op.exc, TrustDecisionFailed):
                self.unexpected(op, "TrustDecisionFailed", ["C01"])
            return
        still = {k for k, x in name1.items() if LEVELS[x] is TrustLevel.UNDECIDED}
        if still:
            self.hit("still_undecided")
            if not isinstance(op.exc, StillUndecided):
                self.unexpected(op, f"StillUndecided ({still})", ["C01"])
            return
        want, want_err = {}, {}
        for k, (ns, ik) in devices.items():
            if LEVELS[name1[k]] is not TrustLevel.TRUSTED:
                continue
            if pre.session(ns, *k) is not None:
                want[k] = {None}
                continue
            out = self.bundle_outcome(op, ns, *k)
            if not out:
                self.v(["C02"], "device-ignored", f"device {k} has no session, but its bundle was not fetched")
                return
            want[k] = set()
            for o in out:
                if isinstance(o, type):
                    want[k].add(o)
                elif o.identity_key != ik or not o.valid or not o.pks:
                    want[k].add(KeyExchangeFailed)
                else:
                    want[k].add(None)
        # a mixed outcome (fetched twice) allows both
        sure = {k for k, x in want.items() if x == {None}}
        fail = {k for k, x in want.items() if None not in x}
        mixed = set(want) - sure - fail
        if mixed:
            self.hit("enc_mixed")
            return
        none_left = {j for j in jids if not any(k[0] == j for k in sure)} - {node.jid}
        if none_left:
            self.hit("no_eligible")
            if not isinstance(op.exc, NoEligibleDevices):
                self.unexpected(op, f"NoEligibleDevices for {none_left}")
            elif set(op.exc.bare_jids) != none_left:
                self.v(["C02"], "no-eligible-names", f"NoEligibleDevices names {set(op.exc.bare_jids)}, expected {none_left}")
            return
        if op.exc is not None:
            self.unexpected(op, "success")
            return
        messages, errors = op.result
        got = {}
        for msg in messages:
            for ekm, kex in msg.keys:
                got[(ekm.bare_jid, ekm.device_id)] = msg.namespace
        if set(got) != sure:
            self.v(["C02"] + (["C01"] if set(got) - sure else []), "recipients-wrong",
                   f"encrypted for {sorted(got)}, expected {sorted(sure)}")
        for k, ns in got.items():
            if k in devices and devices[k][0] != ns:
                self.v(["C02"], "priority-wrong", f"{k} encrypted under {ns}, expected {devices[k][0]} (order {prio})")
        gerr = {}
        for e in errors:
            gerr.setdefault((e.bare_jid, e.device_id), []).append((e.namespace, type(e.exception)))
        werr = {k: (devices[k][0], want[k]) for k in fail}
        if set(gerr) != set(werr) or any(len(x) != 1 or x[0][0] != werr[k][0] or x[0][1] not in werr[k][1]
                                         for k, x in gerr.items() if k in werr):
            self.v(["C02"], "errors-wrong", f"non-critical errors {gerr}, expected {werr}")
        if fail:
            self.hit("enc_noncritical_error")

    def enc_invariants(self, op, devices, trust):
        """Holds for every released message, whatever else happened."""
        if op.exc is not None or op.crashed:
            return
        node, m, ctx = op.node, op.node.model, op.ctx
        messages, errors = op.result
        seen, nss = set(), []
        for msg, pkm in messages.items():
            nss.append(msg.namespace)
            if msg.bare_jid != node.jid or msg.device_id != node.own_id:
                self.v(["C18", "C02"], "wrong-sender", f"message claims to be from {msg.bare_jid}/{msg.device_id}")
            if msg.content.empty or msg.content.t[2] != ctx["plaintext"].get(msg.namespace) or msg.content.t[1] != H("content", pkm.t):
                self.v(["C02", "C04"], "content-wrong", f"message under {msg.namespace} does not contain its plaintext")
            if not msg.keys and not errors:
                self.v(["C02"], "keyless-message", f"message without keys under {msg.namespace}")
            for ekm, kex in msg.keys:
                k = (ekm.bare_jid, ekm.device_id)
                if k in seen:
                    self.v(["C02"], "encrypted-twice", f"two keys for {k}")
                seen.add(k)
                if k == (node.jid, node.own_id):
                    self.v(["C01", "C02"], "encrypted-for-self", "key for the sending device")
                if ekm.km != pkm.t:
                    self.v(["C02"], "key-material-wrong", f"key for {k} does not carry the key of the message")
                d = m.devs.get(k[0], {}).get(k[1])
                old = ctx["pre_model"][0].get(k[0], {}).get(k[1]) if op.par else None
                if d is None or True not in d.a(msg.namespace) | (old.a(msg.namespace) if old else set()) and not (
                        op.par and any(w[0] == "list" and w[1:3] == (k[0], msg.namespace) and k[1] in w[3] for _, _, w in self.par_feeds)):
                    self.v(["C01", "C02"], "encrypted-for-inactive", f"key for {k}, which is not active for {msg.namespace}")
                    continue
                if k[0] not in ctx["jids"] | {node.jid}:
                    self.v(["C01"], "encrypted-for-stranger", f"key for {k}, who is not a recipient")
                peer = bytes.fromhex(ekm.peer)
                if peer not in d.ik:
                    self.v(["C01", "C15", "C17"], "identity-key-bypass", f"session with {k} is bound to identity key {ekm.peer[:8]}, trust was "
                           f"decided on {[x.hex()[:8] for x in d.ik if x]}")
                names = set(m.get_trust(k[0], peer))
                if op.par:
                    names |= ctx["pre_model"][1].get((k[0], peer), {m.undecided}) | ctx["group_trust"].get((k[0], peer), set())
                levels = {LEVELS.get(x) for x in names}
                if TrustLevel.TRUSTED not in levels:
                    self.v(["C01", "C17"], "encrypted-for-untrusted", f"key for {k}, trust {m.get_trust(k[0], peer)}")
                st = ctx["pre"].session(msg.namespace, *k)
                if not op.par:
                    if st is None and kex is None:
                        self.v(["C02", "C04"], "key-exchange-attachment", f"first message to {k} without key exchange")
                    self.check_key(node, ctx["pre"], msg.namespace, ekm, kex)
                if kex is not None and kex.identity_key != node.ik:
                    self.v(["C18"], "key-exchange-identity", "key exchange with a wrong identity key")
                if kex is not None and not op.par:
                    cur = self.view(node).session(msg.namespace, *k)
                    if cur is not None and cur["sid"] == ekm.sid and tuple(stub.SimKEX.load(cur["kex"]).t) != kex.t:
                        self.v(["C04", "C02"], "key-exchange-attachment", f"message to {k} carries another session's key exchange")
        if len(set(nss)) != len(nss):
            self.v(["C02"], "message-per-namespace", f"several messages for one namespace: {nss}")

    def enc_sessions(self, op, devices, pre, view):
        node = op.node
        used = {}
        if op.ok:
            for msg in op.result[0]:
                for ekm, kex in msg.keys:
                    used.setdefault(msg.namespace, {})[f"{ekm.bare_jid}/{ekm.device_id}"] = ekm
        for ns in self.allns:
            a, b = pre.sessions(ns), view.sessions(ns)
            for name in sorted(set(a) | set(b)):
                x = json.loads(json.loads(a[name])) if name in a else None
                y = json.loads(json.loads(b[name])) if name in b else None
                if op.ok:
                    ekm = used.get(ns, {}).get(name)
                    if ekm is None:
                        if x != y:
                            self.v(["C05"], "session-changed", f"encryption changed the session with {name} in {ns}, which it did not use")
                        continue
                    if y is None or y["sid"] != ekm.sid:
                        self.v(["C05", "C04"], "session-not-durable", f"session with {name} in {ns} was not stored")
                    elif x is not None and (x["sid"] != y["sid"] or {**x, "ns": x["ns"] + 1} != y):
                        self.v(["C05", "C04"], "session-changed", f"session with {name} in {ns} was not advanced by exactly one message")
                    elif x is None and y["ns"] != 1:
                        self.v(["C05"], "session-changed", f"new session with {name} in {ns} was not advanced by exactly one message")
                elif x != y:
                    if op.crashed or op.disk_failed:
                        jid, did = name.rsplit("/", 1)
                        if x is not None and (y is None or {**x, "ns": x["ns"] + 1} != y) or x is None and (y["ini"] != "A" or y["ns"] != 1):
                            self.v(["C05", "C04"], "session-damaged", f"interrupted encryption damaged the session with {name} in {ns}")
                    else:
                        self.v(["C05"], "session-changed", f"refused encryption ({type(op.exc).__name__}) changed the session with {name} in {ns}")
            for name, ekm in used.get(ns, {}).items():
                if name not in b:
                    self.v(["C05", "C04"], "session-not-durable", f"session with {name} in {ns} was not stored")

    # ------------------------------------------------------------------ decryption
    def forge(self, node, msg, kind, spec):
        """Variations of a message as an attacker or a broken client could produce them."""
        message = msg.message
        mine = [k for k in message.keys if (k[0].bare_jid, k[0].device_id) == (node.jid, node.own_id)]
        rest = [k for k in message.keys if k not in mine]
        r = spec["r"]
        if kind == "ns":
            return message._replace(namespace="urn:unknown" if r % 2 else [n for n in self.allns if n != message.namespace][0]
                                    if len(self.allns) > 1 else "urn:unknown")
        if kind == "notus" or not mine:
            return message._replace(keys=frozenset(rest))
        ekm, kex = mine[0]
        if kind == "wrongdev":
            ids = sorted(self.world.server.get_list(message.namespace, message.bare_jid)) + [self.ghost_id(r)]
            return message._replace(device_id=ids[r % len(ids)])
        if kind == "wrongjid":
            jids = self.cfg["jids"]
            return message._replace(bare_jid=jids[r % len(jids)])
        if kind == "kexik" and kex is not None:
            other = self.world.nodes[r % len(self.world.nodes)].ik or b"\x07" * 32
            kex = stub.SimKEX(other, *kex.t[1:])
        elif kind == "nokex":
            kex = None
        elif kind == "badpk" and kex is not None:
            kex = stub.SimKEX(kex.t[0], kex.t[1], kex.t[2], kex.t[3].split(".p")[0] + f".p{r % 400}")
        elif kind == "tamper":
            ekm = ekm.replace(lock=H("tampered", ekm.lock))
        elif kind == "skip":
            ekm = ekm.replace(n=ekm.n + 1 + r % 3, lock=H("tampered", ekm.lock))
        elif kind == "content":
            return message._replace(content=stub.SimContent(message.content.empty, H("x", r), b"forged"))
        return message._replace(keys=frozenset(rest + [(ekm, kex)]))

    def op_dec(self, node, spec, par, msg=None):
        if node.mgr is None:
            return None
        if msg is None:
            if not node.inbox:
                return None
            i = spec["r"] % len(node.inbox) if spec["pick"] else 0
            if i:
                self.world.fired("msg_reordered")
            msg = node.inbox[i]
            if spec.get("dup"):
                self.world.fired("msg_duplicated")
            else:
                node.inbox.pop(i)
        message = msg.message
        if spec.get("forge"):
            message = self.forge(node, msg, spec["forge"], spec)
            self.world.fired("msg_forged")
        if not par:
            self.resolve(node, [message.bare_jid])
            if node.mgr is None:
                return None
        pre = self.snap(node)
        mgr = node.mgr
        ctx = {"pre": pre, "message": message, "sync": node.model.sync, "loaded": list(node.loaded), "msg": msg,
               "settled": {ns: self.bg_settled(node, ns) for ns in node.loaded}}
        op = self.execute(node, spec, lambda: mgr.decrypt(message), ctx, par)

        def check(op):
            if par:
                self.fed(op, self.downloaded(op), strict=False)
            else:
                self.check_dec(op)
        return op, check

    def check_dec(self, op):
        node, m, ctx = op.node, op.node.model, op.ctx
        message, pre, view = ctx["message"], ctx["pre"], self.view(node)
        ns, sender = message.namespace, (message.bare_jid, message.device_id)
        self.hit("dec")
        storage_failed = op.disk_failed or op.crashed
        expect, dry = self.expect_dec(op, message, pre)
        accepted = dry is not None and dry[0] == "ok"
        sends = [r for r in op.recs if r.kind == "sm"]
        ups = [r for r in op.recs if r.kind == "ub"]
        name = f"{sender[0]}/{sender[1]}"
        key = ([k for k in message.keys if (k[0].bare_jid, k[0].device_id) == (node.jid, node.own_id)] or [(None, None)])[0]
        ekm, kex = key
        if expect is not None:
            # must be refused
            self.hit("dec_refused_" + "_".join(sorted(e.__name__ for e in expect)))
            if not op.crashed and not (op.disk_failed and isinstance(op.exc, StorageException)):
                if type(op.exc) not in expect:
                    extra = ["C05"] if op.exc is None else []
                    if NoSession in expect or KeyExchangeFailed in expect:
                        extra.append("C10")
                    if TooManySkippedMessageKeys in expect:
                        extra.append("C20")
                    if SenderDistrusted in expect:
                        extra.append("C17")
                    if UnknownNamespace in expect:
                        extra.append("C09")
                    self.unexpected(op, types(expect), extra)
            self.refused_effects(op, pre, view, sends, ups, expect)
            return
        # must be accepted
        staleness = (dry[1]["nr"] or 0) > self.stale
        needs_empty = kex is not None or staleness
        if staleness:
            self.hit("staleness")
        follow_up = {BundleUploadFailed, MessageSendingFailed} & set(op.fired)
        if op.exc is not None:
            if isinstance(op.exc, StorageException) and op.disk_failed:
                pass
            elif type(op.exc) in follow_up:
                self.hit("dec_follow_up_failed")
            else:
                extra = ["C20"] if isinstance(op.exc, TooManySkippedMessageKeys) else []
                extra += ["C10", "C11"] if isinstance(op.exc, KeyExchangeFailed) else []
                extra += ["C05"] if isinstance(op.exc, (DecryptionFailed, NoSession)) else []
                extra += ["C17"] if isinstance(op.exc, SenderDistrusted) else []
                self.unexpected(op, "the plaintext", extra)
                return
        self.accepted_effects(op, pre, view, dry, kex, ekm, name, ns, sender, sends, ups, needs_empty)
        if not op.ok:
            return
        self.hit("dec_ok")
        plaintext, info, pkm = op.result
        want = None if message.content.empty else message.content.t[2]
        if plaintext != want:
            self.v(["C04", "C03"], "plaintext-wrong", f"decrypted to {plaintext!r}, sent was {want!r}")
        if getattr(pkm, "t", None) != dry[2]:
            self.v(["C04"], "key-material-wrong", "wrong plain key material returned")
        if (info.bare_jid, info.device_id) != sender:
            self.v(["C03"], "sender-wrong", f"sender reported as {info.bare_jid}/{info.device_id}, is {sender}")
        else:
            self.check_device(node, info, op, collapse=False)
            d = m.devs[sender[0]][sender[1]]
            if info.identity_key.hex() != dry[1]["peer"]:
                self.v(["C03", "C01"], "sender-identity", "session is bound to another identity key than reported for the sender")

    def expect_dec(self, op, message, pre):
        """Returns (set of expected exception classes or None if it must be accepted, dry run)."""
        node, m, ctx = op.node, op.node.model, op.ctx
        ns, jid, did = message.namespace, message.bare_jid, message.device_id
        storage_failed = op.disk_failed or op.crashed
        if ns not in ctx["loaded"]:
            return {UnknownNamespace}, None
        mine = [k for k in message.keys if (k[0].bare_jid, k[0].device_id) == (node.jid, node.own_id)]
        if not mine:
            return {MessageNotForUs}, None
        ekm, kex = mine[0]

        def found():
            d = m.devs.get(jid, {}).get(did)
            if d is None or not d.maybe_known:
                return None
            oks = [r for r in self.attempts(op, jid, did) if r.status == "ok"]
            if None in d.ik and not oks:
                return None
            return d
        first = found()
        lists = self.downloaded(op)
        known_before = first is not None and (None not in first.ik)
        refreshes = [r for r in op.recs if r.kind == "dl"]
        failed = [r for r in refreshes if r.status == "err"]
        self.fed(op, lists)
        if len(refreshes) > 1 and not op.par:
            self.v(["C03"], "refreshed-often", f"{len(refreshes)} device list downloads to find one sender")
        if refreshes:
            self.hit("dec_refreshed")
            if any(r.jid != jid or r.ns != ns for r in refreshes):
                self.v(["C03"], "refreshed-wrong", "another device list was refreshed to find the sender")
        dev = found()
        self.learn(op)
        if failed and not known_before:
            return {type(failed[0].exc)}, None
        if DeviceListUploadFailed in op.fired and not known_before:
            return {DeviceListUploadFailed}, None
        if dev is None:
            if not refreshes and not storage_failed:
                self.v(["C03"], "sender-not-looked-up", "unknown sender refused without refreshing the device list")
            d = m.devs.get(jid, {}).get(did)
            if refreshes and d is not None and d.is_known and not storage_failed and not op.par:
                tried = [r for r in self.attempts(op, jid, did) if r.seq > refreshes[-1].seq]
                if self.untried(node, d, tried):
                    self.v(["C03"], "sender-not-looked-up", "sender refused, although it is listed and its bundle was not looked for "
                           f"under {self.untried(node, d, tried)}")
            return {SenderNotFound}, None
        looked = [r.result.identity_key for r in self.attempts(op, jid, did) if r.status == "ok"]
        cands = sorted(x for x in dev.ik if x is not None)
        if looked and (len(cands) != 1 or not cands[0]):
            ik = looked[0]          # the bundle is only looked at if the identity key is not known
        elif len(cands) > 1 and kex is not None:        # left open by an interrupted operation: the outcome tells
            differs = isinstance(op.exc, PublicDataInconsistency)
            ik = next((x for x in cands if (x != kex.identity_key) == differs), cands[0])
            self.hit("identity_open")
        else:
            ik = cands[0]
        trust = m.get_trust(jid, ik)
        if len(trust) > 1:          # left open by an interrupted operation: the outcome tells
            want = {TrustLevel.DISTRUSTED} if isinstance(op.exc, SenderDistrusted) else {None} if isinstance(op.exc, UnknownTrustLevel) \
                else {TrustLevel.TRUSTED, TrustLevel.UNDECIDED}
            trust = {x for x in trust if LEVELS.get(x) in want} or trust
            self.hit("trust_open")
        level = sorted(trust)[0]
        if level not in LEVELS:
            return {UnknownTrustLevel}, None
        if LEVELS[level] is TrustLevel.DISTRUSTED:
            return {SenderDistrusted}, None
        if kex is not None and kex.identity_key != ik:
            return {PublicDataInconsistency}, None
        dry = dry_decrypt(pre, ns, node.ik, jid, did, ekm, kex, self.limits(node, ns))
        if dry[0] == "err":
            return {dry[1]}, dry
        if not message.content.empty and message.content.t[1] != H("content", dry[2]):
            return {DecryptionFailed}, dry
        if type(op.exc) is KeyExchangeFailed and self.rotated_away(pre, self.view(node), ns, kex):
            return {KeyExchangeFailed}, dry
        return None, dry

    def rotated_away(self, pre, view, ns, kex):
        """Whether the signed pre key used by a key exchange was discarded by a rotation in the meantime."""
        a, b = pre.state(ns), view.state(ns)
        gone = kex is not None and a is not None and b is not None and a["gen"] == b["gen"] and a["spk"] != b["spk"] and \
            kex.spk not in (f"{b['gen']}.s{b['spk']}", f"{b['gen']}.s{b['old']}")
        if gone:
            self.hit("rotated_away")
        return gone

    def refused_effects(self, op, pre, view, sends, ups, expect):
        node = op.node
        what = f"refused message ({types(expect)})"
        for ns in self.allns:
            if pre.sessions(ns) != view.sessions(ns):
                self.v(["C03", "C05"] + (["C20"] if TooManySkippedMessageKeys in expect else []), "refused-changed-session",
                       f"{what} changed sessions in {ns}")
            a, b = pre.state(ns), view.state(ns)
            if a is not None and b is not None and (sorted(a["pk"]), sorted(a["hid"])) != (sorted(b["pk"]), sorted(b["hid"])):
                self.v(["C03", "C10"], "refused-changed-pre-keys", f"{what} changed pre keys in {ns}")
        if sends:
            self.v(["C03", "C12"], "refused-answered", f"{what} was answered by a message")
        if ups:
            self.v(["C03", "C10"], "refused-uploaded", f"{what} led to a bundle upload")

    def accepted_effects(self, op, pre, view, dry, kex, ekm, name, ns, sender, sends, ups, needs_empty):
        node, m, ctx = op.node, op.node.model, op.ctx
        q = (ns, sender[0], sender[1])
        # the session
        x, y = pre.session(ns, *sender), view.session(ns, *sender)
        stored = y is not None and self.same_received(y, dry[1])
        if not stored:
            if op.ok or (not op.crashed and not op.disk_failed):
                self.v(["C05", "C04"], "session-not-durable", f"message from {name} accepted, but the session was not stored")
            elif x != y:
                self.v(["C05"], "session-damaged", f"interrupted decryption damaged the session with {name}")
        self.sessions_check(op, pre, view, ns, set(), {name: None})
        for other in self.allns:
            if other != ns:
                self.sessions_check(op, pre, view, other, set(), {})
                a, b = pre.state(other), view.state(other)
                if a is not None and b is not None and (a["pk"], a["hid"]) != (b["pk"], b["hid"]):
                    self.v(["C10"], "pre-keys-changed", f"pre keys of {other} changed by a message under {ns}")
        # pre keys
        a, b = pre.state(ns), view.state(ns)
        sync = ctx["sync"]
        changed = False
        if kex is None:
            if (sorted(a["pk"]), sorted(a["hid"])) != (sorted(b["pk"]), sorted(b["hid"])):
                self.v(["C10"], "pre-keys-changed", "pre keys changed by a message without key exchange")
        elif kex.pk.split(".p")[0] == a["gen"]:
            pk = int(kex.pk.split(".p")[1])
            vis = pk in a["pk"]
            # a follow-up publication or message that fails does not undo the key exchange
            if op.ok or (type(op.exc) in (MessageSendingFailed, BundleUploadFailed) and not op.crashed and not op.disk_failed):
                if pk in b["pk"]:
                    self.v(["C10"], "pre-key-still-published", f"used pre key {pk} is still part of the bundle")
                if not sync and pk in b["hid"]:
                    self.v(["C10"], "pre-key-still-usable", f"used pre key {pk} is still usable")
                if sync and (vis or pk in a["hid"]) and pk not in b["hid"]:
                    self.v(["C10", "C04"], "pre-key-not-kept", f"pre key {pk} used during synchronization is gone")
                n = len(a["pk"]) - (1 if vis else 0)
                want = {100 if n <= node.thr else n} if vis else {len(a["pk"])}
                if not vis and pk in a["hid"] and not sync:
                    want = {len(a["pk"]), 100 if len(a["pk"]) <= node.thr else len(a["pk"])}
                if len(b["pk"]) not in want:
                    self.v(["C10"], "pre-key-count", f"{len(b['pk'])} pre keys after using one of {len(a['pk'])}, expected {want} "
                           f"(threshold {node.cfg['thr']})")
                if vis:
                    self.hit("pre_key_used_sync" if sync else "pre_key_used")
                    if n <= node.thr:
                        self.hit("pre_keys_refilled")
            if len(b["pk"]) > 100:
                self.v(["C10"], "pre-key-count", f"{len(b['pk'])} pre keys")
            lost = (set(a["pk"]) - {pk}) - set(b["pk"])
            if lost:
                self.v(["C10", "C04"], "pre-keys-lost", f"unused pre keys {sorted(lost)[:5]} removed")
            if not set(a["hid"]) - {pk} <= set(b["hid"]) | (set() if sync else set(a["hid"])):
                self.v(["C10"], "pre-keys-lost", "hidden pre keys removed during synchronization")
            changed = sorted(a["pk"]) != sorted(b["pk"])
        if op.ok and changed and ctx["settled"].get(ns) and self.bg_settled(node, ns):
            srv = self.world.server.bundles.get((ns, node.jid, node.own_id))
            if srv != self.local_bundle(node, ns):
                self.v(["C10"], "bundle-not-published", f"the published bundle of {ns} differs from the local one after using a pre key")
        # the automated answer
        good = [r for r in sends if len(r.arg.keys) == 1 and (lambda e: (r.arg.namespace, e.bare_jid, e.device_id) == q)(next(iter(r.arg.keys))[0])
                and r.jid == sender[0]]
        if len(good) != len(sends):
            self.v(["C12"], "empty-message-misrouted", f"automated message to somebody else than {q}")
        if sync and sends:
            self.v(["C12"], "empty-message-in-sync", "empty message sent during synchronization")
        if not needs_empty and sends:
            self.v(["C12"], "empty-message-unneeded", f"empty message to {q} without need")
        if len(sends) > 1:
            self.v(["C12"], "empty-message-twice", f"{len(sends)} empty messages for one message")
        if op.ok and needs_empty:
            if sync:
                m.queue[q] = "must"
                self.hit("empty_deferred")
            else:
                self.hit("empty_sent")
                if not sends:
                    self.v(["C12", "C21"], "empty-message-missing", f"no empty message to {q} (key exchange: {kex is not None})")
        elif needs_empty and sync:
            m.queue.setdefault(q, "may")
        for r in sends:
            e, k = next(iter(r.arg.keys))
            need = dry[1]["ini"] == "A" and not dry[1]["conf"]
            if (k is not None) != need:
                self.v(["C04"], "key-exchange-attachment", "empty message with a needless or without a required key exchange")
        if y is not None and stored and dry[1]["sid"] == y["sid"]:
            # whatever was sent is accounted for; nothing else advanced the session
            base = 0 if y["dhs"] != (x or {}).get("dhs") else x["ns"]
            sent = [r for r in sends]
            if y["ns"] - base > len(sent) + (1 if not op.ok else 0):
                self.v(["C05"], "session-changed", f"decryption advanced the sending chain by {y['ns'] - base}, messages sent: {len(sent)}")

    def same_received(self, y, d):
        """Same session as the dry run, up to fresh random values and messages sent since."""
        return all(y[f] == d[f] for f in ("sid", "ini", "conf", "dhr", "nr", "cr", "sk", "peer", "kex"))

    # ------------------------------------------------------------------ session replacement
    def op_replace(self, node, spec, par, target=None):
        if node.mgr is None:
            return None
        t = target or self.pick_dev(node, spec["r"])
        if t is None:
            return None
        jid, did = t
        if not par:
            self.resolve(node, [jid])
        d = node.model.devs.get(jid, {}).get(did)
        if node.mgr is None or d is None or not d.is_known or not d.certain or None in d.ik:
            return None
        ik = next(iter(d.ik))
        info = omemo.DeviceInformation(
            namespaces=frozenset(spec.get("claim", [])), active=frozenset(), bare_jid=jid, device_id=did, identity_key=ik,
            trust_level_name="stale", label=None
        )
        pre = self.snap(node)
        mgr = node.mgr
        ctx = {"pre": pre, "loaded": list(node.loaded)}
        op = self.execute(node, dict(spec, op="replace"), lambda: mgr.replace_sessions(info), ctx, par)

        def check(op):
            if par:
                return
            self.learn(op)
            view = self.view(node)
            name = f"{jid}/{did}"
            if op.exc is not None:
                if not (isinstance(op.exc, StorageException) and op.disk_failed):
                    self.unexpected(op, "a report")
            sends = [r for r in op.recs if r.kind == "sm"]
            known_ns = {ns for ns in self.allns if True in d.a(ns) or False in d.a(ns)}
            for ns in self.allns:
                x, y = pre.session(ns, jid, did), view.session(ns, jid, did)
                mine = [r for r in sends if r.arg.namespace == ns]
                target_ns = ns in ctx["loaded"] and x is not None
                tolerated = target_ns and ns not in known_ns
                bad = (op.result or {}).get(ns)
                if not target_ns:
                    if mine or x != y or bad is not None:
                        self.v(["C15"], "replaced-without-session", f"{ns} had no session with {name} (or is not loaded), but was handled")
                    continue
                for r in mine:
                    e, k = next(iter(r.arg.keys))
                    if len(r.arg.keys) != 1 or (e.bare_jid, e.device_id) != (jid, did) or r.jid != jid or k is None:
                        self.v(["C15"], "notification-wrong", f"notification for {name} in {ns} malformed")
                    elif bytes.fromhex(e.peer) != ik:
                        self.v(["C15", "C01"], "identity-key-bypass", f"new session with {name} is bound to a foreign identity key")
                if len(mine) > 1:
                    self.v(["C15"], "notification-twice", f"{len(mine)} notifications for {name} in {ns}")
                out = self.bundle_outcome(op, ns, jid, did)
                swapped = y is not None and x is not None and y["sid"] != x["sid"]
                if swapped:
                    self.hit("session_replaced")
                    if not mine or mine[0].status != "ok":
                        self.v(["C15"], "replaced-without-notification", f"session with {name} in {ns} replaced, but the notification was not sent")
                    else:
                        e = next(iter(mine[0].arg.keys))[0]
                        if y["sid"] != e.sid:
                            self.v(["C15"], "replaced-by-other", f"session with {name} in {ns} replaced by another than announced")
                elif x != y:
                    self.v(["C15", "C05"], "session-changed", f"session with {name} in {ns} changed by a failed replacement")
                if op.crashed or op.exc is not None or tolerated:
                    continue
                fine = bool(out) and all(not isinstance(o, type) and o.identity_key == ik and o.valid and o.pks for o in out)
                storage_bad = isinstance(bad, StorageException)
                if fine and mine and mine[0].status == "ok":
                    if bad is not None and not (storage_bad and op.disk_failed):
                        self.v(["C15"], "failure-reported-wrongly", f"{ns}: {type(bad).__name__} reported for a successful replacement")
                    if bad is None and not swapped:
                        self.v(["C15"], "not-replaced", f"session with {name} in {ns} not replaced, no error reported")
                elif bad is None:
                    self.v(["C15"], "failure-not-reported", f"{ns}: replacement failed ({out}), not reported")
                else:
                    self.hit("replace_failed_reported")
                    if swapped and not op.disk_failed:
                        self.v(["C15"], "replaced-despite-failure", f"{ns}: session replaced although {type(bad).__name__} was reported")
                    types_ok = {o if isinstance(o, type) else None for o in out} | {type(r.exc) for r in mine if r.exc} | {None}
                    if type(bad) not in types_ok and not (storage_bad and op.disk_failed) and not isinstance(bad, (
                            KeyExchangeFailed, PublicDataInconsistency)):
                        self.v(["C15"], "failure-reason-wrong", f"{ns}: failed with {type(bad).__name__}, expected {types_ok}")
                if not out and not op.disk_failed:
                    self.v(["C15"], "not-replaced", f"{ns}: no attempt to replace the session with {name}")
            for ns in self.allns:
                self.sessions_check(op, pre, view, ns, set(), {name: None})
                if not self.same_but_rotation({k: z for k, z in pre.raw(ns).items() if k.endswith("/state")},
                                              {k: z for k, z in view.raw(ns).items() if k.endswith("/state")}):
                    self.v(["C15"], "backend-touched", f"replacing sessions changed other data of {ns}")
            extra_ns = set(op.result or {}) - set(ctx["loaded"])
            if extra_ns:
                self.v(["C15"], "replaced-without-session", f"failure reported for {extra_ns}")
        return op, check

    def op_chain(self, node, spec, par):
        if node.mgr is None:
            return None
        t = self.pick_dev(node, spec["r"])
        if t is None:
            return None
        jid, did = t
        ik = next(iter(node.model.devs[jid][did].ik))
        info = omemo.DeviceInformation(frozenset(self.allns), frozenset(), jid, did, ik, "stale", None)
        pre = self.snap(node)
        mgr, loaded = node.mgr, list(node.loaded)
        op = self.execute(node, spec, lambda: mgr.get_sending_chain_length(info), par=par)

        def check(op):
            if op.exc is not None and not op.disk_failed:
                self.unexpected(op, "chain lengths")
            if op.ok and not par:
                want = {ns: (pre.session(ns, jid, did) or {"ns": None})["ns"] for ns in loaded}
                if op.result != want:
                    self.v(["C05"], "chain-length", f"sending chain lengths {op.result}, expected {want}")
                if self.view(node).data != pre.data and not op.par and self.sessions_differ(pre, self.view(node)):
                    self.v(["C05"], "session-changed", "asking for the chain length changed sessions")
        return op, check

    def sessions_differ(self, a, b):
        return any(a.sessions(ns) != b.sessions(ns) for ns in self.allns)

    # ------------------------------------------------------------------ environment operations
    def op_crash(self, node, spec, par):
        if node.inc is not None:
            node.crash()
        return None

    def op_clock(self, node, spec, par):
        if node.inc is None:
            node.clock_offset += spec["dt"]
            self.world.fired("clock_jump")
        return None

    def op_sleep(self, node, spec, par):
        for n in self.world.nodes:
            n.bg_fault_op = None
        if node.inc is not None and spec.get("f"):
            op = OpRun(spec["id"], node, dict(spec, op="sleep"), False)
            node.bg_fault_op = op
        self.run_for(self.affordable(spec["dt"]))
        node.bg_fault_op = None
        return None

    def affordable(self, dt):
        """Bounds the number of rotations of one run."""
        rate = sum(len(n.loaded) / n.period for n in self.world.nodes if n.mgr is not None)
        dt = min(dt, max(61.0, self.rotations_left / rate)) if rate else dt
        self.rotations_left -= rate * dt
        return dt

    def op_outage(self, node, spec, par):
        t = self.world.loop.time()
        self.world.outages.append({"t0": t, "t1": t + spec["dt"], "kinds": spec["kinds"], "node": None if spec["all"] else node.idx})
        return None

    def op_drop(self, node, spec, par):
        if node.inbox:
            n = spec.get("count", 1)
            for _ in range(min(n, len(node.inbox))):
                node.inbox.pop(spec["r"] % len(node.inbox))
                self.world.fired("msg_lost")
        return None

    def op_adv_list(self, node, spec, par):
        """Somebody else (another client, the server) changes the published device list of an account."""
        srv = self.world.server
        ns = self.allns[spec["ns"] % len(self.allns)]
        jid = node.jid
        lst = srv.get_list(ns, jid)
        how = spec["how"]
        ids = sorted(lst)
        if how == "clear":
            lst = {}
        elif how == "remove" and ids:
            lst.pop(ids[spec["r"] % len(ids)])
        elif how == "own" and node.own_id in lst:
            lst.pop(node.own_id)
        elif how == "ghost":
            lst[self.ghost_id(spec["r"])] = spec["label"]
        elif how == "relabel" and ids:
            lst[ids[spec["r"] % len(ids)]] = spec["label"]
        self.world.fired("adv_list")
        srv.put_list(ns, jid, lst, None)
        return None

    def op_adv_bundle(self, node, spec, par):
        """Somebody else tampers with a published bundle."""
        srv, w = self.world.server, self.world
        ns = self.allns[spec["ns"] % len(self.allns)]
        jid = node.jid
        lst = sorted(srv.get_list(ns, jid))
        if spec["ghost"]:
            own = {n.own_id for n in w.nodes if n.jid == jid}
            lst = [x for x in lst if x not in own]
        if not lst:
            return None
        did = lst[spec["r"] % len(lst)]
        key = (ns, jid, did)
        old = srv.bundles.get(key)
        how = spec["how"]
        iks = sorted({n.ik for n in w.nodes if n.ik is not None})
        evil = bytes.fromhex(H("evil", spec["r"] % 3) * 4)[:32]
        if how == "delete":
            srv.bundles.pop(key, None)
        elif how == "swap" or (old is None and how in ("same_ik", "new")):
            ik = iks[spec["r"] % len(iks)] if how == "same_ik" and iks else evil
            srv.bundles[key] = stub.SimBundle(ns, jid, did, ik, f"ge{did}.s1", [f"ge{did}.p{i}" for i in range(1, 4)])
        elif how == "invalid":
            b = old or stub.SimBundle(ns, jid, did, evil, f"ge{did}.s1", [f"ge{did}.p1"])
            srv.bundles[key] = stub.SimBundle(*b.t[:6], False)
        elif how == "empty":
            b = old or stub.SimBundle(ns, jid, did, evil, f"ge{did}.s1", [])
            srv.bundles[key] = stub.SimBundle(*b.t[:5], (), True)
        elif how == "fewer" and old is not None:
            srv.bundles[key] = stub.SimBundle(*old.t[:5], old.t[5][: len(old.t[5]) // 2], True)
        elif how == "spk" and old is not None:
            srv.bundles[key] = stub.SimBundle(*old.t[:4], old.t[4] + "x", old.t[5], True)
        else:
            return None
        w.fired("adv_bundle_" + how)
        for n in w.nodes:
            if n.jid == jid and n.own_id == did:
                n.bundle_tampered.add((ns, did))
                n.synced.discard(ns)
        return None

    # ------------------------------------------------------------------ overlapping operations
    def run_par(self, spec):
        """Several operations at once; what must hold for every order of their effects is checked when all are done."""
        started, pres, pre_models = [], {}, {}
        nodes = self.world.nodes
        involved = sorted({s["n"] % len(nodes) for s in spec["ops"]})
        for i in involved:
            n = nodes[i]
            self.resolve(n, self.cfg["jids"])
            pres[i] = self.snap(n)
            pre_models[i] = ({j: {k: d.copy() for k, d in ds.items()} for j, ds in n.model.devs.items()},
                             {k: set(x) for k, x in n.model.trust.items()})
        settled = {i: {ns: self.bg_settled(nodes[i], ns) for ns in nodes[i].loaded} for i in involved}
        syncs = {i: nodes[i].model.sync for i in involved}
        self.hit("par")
        for j, s in enumerate(spec["ops"]):
            self.world.cur = str(s["id"])
            if j:
                self.run_for(self.world.delay("par"))
            r = self.one(s, par=True)
            if r is not None:
                started.append(r)
        if not started or not self.wait([op for op, _ in started]):
            return None
        ops = [op for op, _ in started]
        overl = sum(1 for a in ops for b in ops if a is not b and a.node is b.node and a.t0 < (b.t1 or 0) and b.t0 < (a.t1 or 0))
        if overl:
            self.hit("overlapping_pairs", overl // 2)
        self.par_feeds = []
        for i in involved:
            mine = [op for op in ops if op.node is nodes[i]]
            labels = {op.spec["label"] for op in mine if op.kind == "label"}
            for op in mine:
                for lst in [op.ctx.get("lst", {})] + [r.result for r in op.recs if r.kind == "dl" and r.status == "ok" and r.jid == nodes[i].jid]:
                    if nodes[i].own_id in lst:
                        labels.add(lst[nodes[i].own_id])
            peers = set()
            for op in mine:
                if op.kind == "dec":
                    x = op.ctx["message"]
                    peers.add((x.namespace, x.bare_jid, x.device_id))
            pre_model = pre_models[i]
            trust = {}
            for op in mine:
                if op.kind == "trust":
                    trust.setdefault(op.ctx["set"][:2], set()).add(op.ctx["set"][2])
                for key, name in op.trust_sets:
                    trust.setdefault(key, set()).add(name)
            for op in mine:
                op.ctx.update(labels=labels, peers=peers, pre_model=pre_model, group_trust=trust)
            iks = {}
            for op in mine:
                for r in op.recs:
                    if r.kind == "db" and r.status == "ok":
                        iks.setdefault((r.jid, r.dev), set()).add(r.result.identity_key)
            for op in mine:
                op.ctx["group_iks"] = iks
        for op, check in started:
            check(op)
            self.common(op)
            if op.exc is not None:
                allowed = {UnknownNamespace, MessageNotForUs, SenderNotFound, SenderDistrusted, NoSession, PublicDataInconsistency,
                           UnknownTrustLevel, StillUndecided, NoEligibleDevices, TrustDecisionFailed, KeyExchangeFailed,
                           DecryptionFailed, TooManySkippedMessageKeys} if op.kind in ("enc", "dec", "replace") else {UnknownNamespace}
                if type(op.exc) not in allowed and not self.explained(op):
                    self.unexpected(op, types(op.fired), ["C21"])
            if op.node.synced and any(o.crashed or o.disk_failed or any(r.kind == "ub" and r.status != "ok" for r in o.recs)
                                      for o in ops if o.node is op.node):
                op.node.synced.clear()
        self.apply_feeds()
        for op in ops:
            self.learn(op)
        for i in involved:
            begun = next((j for j, s in enumerate(spec["ops"]) if s["op"] == "sync_begin"), None)
            after = None if begun is None else {s["id"] for s in spec["ops"][begun:]}
            self.check_par(nodes[i], [op for op in ops if op.node is nodes[i]], pres[i], settled[i], syncs[i], after)
        for i in involved:
            if nodes[i].mgr is not None:
                self.resolve(nodes[i], self.cfg["jids"])
        return ops[-1]

    def apply_feeds(self):
        """Bring the models up to date with what overlapping operations did, in the order in which it took effect."""
        for _, node, what in sorted(self.par_feeds, key=lambda x: x[0]):
            if what[0] == "list":
                node.model.feed(*what[1:])
            elif what[0] == "maylabel":
                own = node.model.dev(node.jid, node.own_id)
                if what[1] is not None:
                    own.label = own.label | {what[1]}
            else:
                own = node.model.dev(node.jid, node.own_id)
                own.label = {what[1]} | (set() if what[2] else own.label)

    def check_par(self, node, ops, pre, settled, sync, resync=None):
        """``resync``: the operations started after synchronization was entered again (while it was being left)."""
        view = self.view(node)
        m = node.model
        encs = [o for o in ops if o.kind == "enc" and o.ok]
        decs = [o for o in ops if o.kind == "dec" and not o.crashed]
        crashed = any(o.crashed for o in ops)
        failed_disk = any(o.disk_failed for o in ops)
        for o in encs:
            self.enc_invariants(o, {}, {})
        replaced = {(r.arg.namespace, next(iter(r.arg.keys))[0].bare_jid, next(iter(r.arg.keys))[0].device_id)
                    for o in ops if o.kind == "replace" for r in o.recs if r.kind == "sm"}
        for o in ops:
            if o.kind == "dec" and o.crashed and (sync or m.sync):
                x = o.ctx["message"]
                m.queue.setdefault((x.namespace, x.bare_jid, x.device_id), "may")
        # received: which sessions were built or replaced by key exchanges in the group
        by_peer = {}
        for o in decs:
            msg = o.ctx["message"]
            mine = [k for k in msg.keys if (k[0].bare_jid, k[0].device_id) == (node.jid, node.own_id)]
            if mine:
                by_peer.setdefault((msg.namespace, msg.bare_jid, msg.device_id), []).append((o, mine[0][0], mine[0][1]))
        for peer, items in by_peer.items():
            ns = peer[0]
            sids = {e.sid for _, e, _ in items}
            st = view.session(*peer)
            for o, ekm, kex in items:
                if o.ok:
                    if o.result[0] != (None if o.ctx["message"].content.empty else o.ctx["message"].content.t[2]):
                        self.v(["C04", "C21"], "plaintext-wrong", "decrypted to something else than was sent")
                    if st is None and not crashed and not any(x.kind in ("purge_jid", "purge_ns", "bpurge") for x in ops):
                        self.v(["C21", "C05"], "session-lost", f"session with {peer} is gone")
                    elif st is not None and st["sid"] == ekm.sid and not crashed and len(sids) == 1 and peer not in replaced:
                        again = dry_decrypt(view, ns, node.ik, peer[1], peer[2], ekm, None, (None, None))
                        if again[0] == "ok":
                            self.v(["C21", "C05"], "session-update-lost", f"a message from {peer} decrypted by an overlapping operation "
                                   f"could be decrypted again")
                    if kex is not None and not crashed and not failed_disk:
                        b = view.state(ns)
                        pk_gen, pk = kex.pk.split(".p")
                        if b is not None and pk_gen == b["gen"]:
                            if int(pk) in b["pk"] or (not sync and not m.sync and int(pk) in b["hid"]):
                                self.v(["C21", "C10"], "pre-key-change-lost", f"pre key {pk} used by an overlapping operation is still there")
                    if resync is not None:
                        self.requeued(node, ops, peer, o, kex, resync)
                    elif sync and m.sync and kex is not None and not any(x.kind == "sync_end" for x in ops):
                        m.queue[peer] = "must"
                    elif sync or m.sync:
                        m.queue.setdefault(peer, "may")
                else:
                    if sync or m.sync:
                        m.queue.setdefault(peer, "may")
                    # must it have worked?
                    if len(sids) == 1 and peer not in replaced and type(o.exc) in (NoSession, DecryptionFailed, KeyExchangeFailed) \
                            and not o.spec.get("forge"):
                        first = dry_decrypt(pre, ns, node.ik, peer[1], peer[2], ekm, kex, self.limits(node, ns))
                        dups = sum(1 for _, e, _ in items if e.lock == ekm.lock)
                        other_kex = any(k is not None for p, its in by_peer.items() for _, _, k in its if p != peer and kex is not None
                                        and k is not None and k.pk == kex.pk)
                        # a pre key kept for the history synchronisation may go with its end
                        hidden = kex is not None and any(x.kind == "sync_end" for x in ops) and pre.state(ns) is not None and \
                            kex.pk.split(".p")[1] in {str(x) for x in pre.state(ns)["hid"]}
                        hidden = hidden or self.rotated_away(pre, view, ns, kex)
                        # (with a session that exists twice at the peer, because a repeated key exchange rebuilt it, the order matters)
                        if first[0] == "ok" and dups == 1 and not other_kex and not hidden and ns in node.loaded and \
                                self.any_order(pre, ns, node, peer, ekm, kex, [(e, k) for _, e, k in items if e is not ekm]):
                            content = o.ctx["message"].content
                            if content.empty or content.t[1] == H("content", first[2]):
                                self.unexpected(o, "the plaintext", ["C21", "C04"])
        fresh_jids = [p[:2] for p, its in by_peer.items() if sync and m.sync and any(o.ok and k is not None for o, _, k in its)]
        if len(fresh_jids) > len(set(fresh_jids)):
            self.hit("par_queued_same_account")
        # sent
        for o in encs:
            for msg in o.result[0]:
                for ekm, kex in msg.keys:
                    st = view.session(msg.namespace, ekm.bare_jid, ekm.device_id)
                    if st is not None and st["sid"] == ekm.sid and st["dhs"] == ekm.dh and st["ns"] <= ekm.n and not crashed:
                        self.v(["C21", "C05"], "session-update-lost", f"session with {ekm.bare_jid}/{ekm.device_id} is behind a message that was sent")
        # published bundle
        quiet = all(o.exc is None and not o.crashed for o in ops)
        if quiet and node.mgr is not None:
            for ns in node.loaded:
                a, b = pre.state(ns), view.state(ns)
                if a is None or b is None:
                    continue
                if a["gen"] == b["gen"] and sorted(a["pk"]) != sorted(b["pk"]) and settled.get(ns) and self.bg_settled(node, ns):
                    if self.world.server.bundles.get((ns, node.jid, node.own_id)) != self.local_bundle(node, ns):
                        self.v(["C21", "C10"], "bundle-not-published", f"the published bundle of {ns} differs from the local one")
                if len(b["pk"]) > 100:
                    self.v(["C10", "C21"], "pre-key-count", f"{len(b['pk'])} pre keys")
                if any(o.kind == "ensure" for o in ops):
                    self.hit("par_ensure")

    def requeued(self, node, ops, peer, o, kex, resync):
        """A message decrypted while synchronization is left and entered again at once."""
        sends = [r for r in o.recs if r.kind == "sm"]
        if o.id not in resync or kex is None or any(x.crashed or x.disk_failed for x in ops):
            if not sends:
                node.model.queue.setdefault(peer, "may")
            return
        self.hit("resync")
        if sends:
            self.v(["C12", "C21"], "empty-message-in-sync", "empty message sent during synchronization")
        later = [r for x in ops if x.kind == "sync_end" for r in x.recs if r.kind == "sm" and r.arg.namespace == peer[0]
                 and r_key(r) == f"{peer[1]}/{peer[2]}" and r.t0 >= o.t1]
        node.model.queue[peer] = "may" if later else "must"

    def any_order(self, pre, ns, node, peer, ekm, kex, others):
        """Whether a message can be decrypted after each of the others, too."""
        for e, k in others:
            x = dry_decrypt(pre, ns, node.ik, peer[1], peer[2], e, k, self.limits(node, ns))
            if x[0] == "ok":
                after = View({**pre.data, f"{stub.prefix(ns)}s/{peer[1]}/{peer[2]}": json.dumps(json.dumps(x[1]))})
                if dry_decrypt(after, ns, node.ik, peer[1], peer[2], ekm, kex, self.limits(node, ns))[0] != "ok":
                    self.hit("par_order_matters")
                    return False
        return True

    # ------------------------------------------------------------------ whole run
    def run(self):
        self.world.activate()
        try:
            for i, spec in enumerate(self.plan["ops"]):
                self.step = i
                self.guarded(spec)
                self.background_checks()
                if self.stop or self.collision:
                    return self
            if self.plan.get("final", True):
                self.step = "final"
                self.final()
                self.background_checks()
        finally:
            self.world.deactivate()
        return self

    def guarded(self, spec):
        return self.run_op(spec)

    # ------------------------------------------------------------------ final phase: recovery
    def sub(self, kind, node, **kw):
        spec = {"op": kind, "n": node.idx, "id": f"fin{self.opn}", "r": 0, "pick": 0}
        spec.update(kw)
        return self.run_op(spec)

    def final(self):
        w = self.world
        w.outages.clear()
        for node in w.nodes:
            if self.stop:
                return
            if node.mgr is None:
                op = self.sub("boot", node, ns=node.cfg["final_ns"])
                if op is None or not op.ok:
                    self.v(["C19", "C08"], "no-recovery", f"node {node.idx} does not load once faults stopped: {op.exc if op else None!r}")
                    return
        for node in w.nodes:
            op = self.sub("ensure", node)
            if op is not None and not op.ok:
                self.v(["C19", "C13"], "no-recovery", f"ensure_data_consistency fails once faults stopped: {op.exc!r}")
        # notifications are delivered until nothing changes any more
        for rnd in range(40):
            if self.stop:
                return
            pending = [n for n in w.nodes if n.mgr is not None and n.notifs]
            if not pending:
                break
            for node in pending:
                for _ in range(len(node.notifs)):
                    self.sub("notif", node)
        else:
            self.v(["C07", "C19"], "lists-diverge", "device lists keep changing once faults stopped")
        for node in w.nodes:
            for ns in node.loaded:
                if node.own_id not in w.server.get_list(ns, node.jid):
                    self.v(["C07", "C13"], "not-listed-finally", f"node {node.idx} is not in the device list of {ns} once faults stopped")
                if self.bg_settled(node, ns) and w.server.bundles.get((ns, node.jid, node.own_id)) != self.local_bundle(node, ns):
                    self.v(["C13", "C10"], "bundle-differs-finally", f"node {node.idx}: published bundle of {ns} differs from the local one")
        for node in w.nodes:
            for jid in self.cfg["jids"]:
                self.sub("refresh", node, jid=self.cfg["jids"].index(jid), ns=None)
                if self.stop:
                    return
        for node in w.nodes:
            op = self.sub("sync_end", node)
            if op is not None and not op.ok:
                self.v(["C19", "C12"], "no-recovery", f"after_history_sync fails once faults stopped: {op.exc!r}")
        for node in w.nodes:
            while node.inbox and len(node.inbox) > 6:
                node.inbox.pop(0)
            for _ in range(len(node.inbox)):
                self.sub("dec", node)
            node.inbox.clear()
        if self.plan["final"] == "full":
            self.exchange()

    def exchange(self):
        w = self.world
        pairs = [(a, b) for a in w.nodes for b in w.nodes if a is not b and set(a.loaded) & set(b.loaded)]
        pairs.sort(key=lambda p: H(self.plan["seed"], p[0].idx, p[1].idx))
        for a, b in pairs[:self.cfg.get("pairs", 6)]:
            if self.stop:
                return
            if a.mgr is None or b.mgr is None:
                return
            if any(x.own_id in w.server.get_list(ns, x.jid) for x in (a, b) for ns in self.allns if ns not in x.loaded):
                self.hit("pair_stale_listing")      # another device republished an outdated list
                continue
            da = a.model.devs.get(b.jid, {}).get(b.own_id)
            db = b.model.devs.get(a.jid, {}).get(a.own_id)
            for x, d, peer in ((a, da, b), (b, db, a)):
                if d is not None and any(ik is not None and ik != peer.ik for ik in d.ik):
                    d = "poisoned"
                    break
            else:
                d = None
            if d == "poisoned":
                self.hit("pair_poisoned")
                continue
            for x, peer in ((a, b), (b, a)):
                op, check = self.op_info(x, {"op": "info", "n": x.idx, "id": f"fin{self.opn}"}, False, jid=peer.jid)
                self.wait([op])
                check(op)
            for x, peer in ((a, b), (b, a)):
                mgr = x.mgr
                for did, dv in sorted(x.model.devs.get(peer.jid, {}).items()):
                    for ik in sorted(k for k in dv.ik if k is not None):
                        op = self.execute(x, {"op": "trust", "n": x.idx, "id": f"fin{self.opn}"},
                                          lambda ik=ik: mgr.set_trust(peer.jid, ik, "T1"))
                        self.wait([op])
                        x.model.set_trust(peer.jid, ik, "T1")
                if peer.jid != x.jid:
                    for did, dv in sorted(x.model.devs.get(x.jid, {}).items()):
                        for ik in sorted(k for k in dv.ik if k is not None):
                            op = self.execute(x, {"op": "trust", "n": x.idx, "id": f"fin{self.opn}"},
                                              lambda ik=ik: mgr.set_trust(x.jid, ik, "T1"))
                            self.wait([op])
                            x.model.set_trust(x.jid, ik, "T1")
            result = self.try_send(a, b)
            if result == "ok":
                self.hit("pair_ok")
                continue
            if result is None:
                return
            self.hit("pair_needs_replacement")
            op = self.run_replace(a, b)
            if op is None or not op.ok:
                self.v(["C19", "C15"], "no-recovery", f"replacing the sessions fails once faults stopped: {op.exc if op else None!r}")
                return
            self.deliver_all(b, a)
            result = self.try_send(a, b)
            if result != "ok" and result is not None:
                self.v(["C19", "C15"], "no-recovery", f"node {a.idx} cannot send to node {b.idx} even after replacing the session: {result}")
                return
            self.deliver_all(a, b)
            replaced = {r.ns for r in op.recs if r.kind == "sm" and r.status == "ok"}
            result = self.try_send(b, a)
            if result != "ok" and result is not None:
                if self.last_ns in replaced:
                    self.v(["C19", "C15"], "no-recovery", f"node {b.idx} cannot answer node {a.idx} after the session was replaced: {result}")
                    return
                # over another backend, where only this side has a session: replaced from this side
                self.hit("pair_needs_second_replacement")
                op = self.run_replace(b, a)
                if op is None or not op.ok:
                    self.v(["C19", "C15"], "no-recovery", f"replacing the sessions fails once faults stopped: {op.exc if op else None!r}")
                    return
                self.deliver_all(a, b)
                for x, y in ((b, a), (a, b)):
                    result = self.try_send(x, y)
                    if result != "ok" and result is not None:
                        self.v(["C19", "C15"], "no-recovery", f"node {x.idx} cannot send to node {y.idx} even after replacing both sessions: {result}")
                        return

    def run_replace(self, a, b):
        self.world.cur = f"fin{self.opn}"
        r = self.op_replace(a, {"op": "replace", "n": a.idx, "id": f"fin{self.opn}", "r": 0}, False, target=(b.jid, b.own_id))
        if r is None:
            return None
        self.wait([r[0]])
        r[1](r[0])
        return r[0]

    def deliver_all(self, b, a):
        for m in [m for m in b.inbox if m.sender is a]:
            b.inbox.remove(m)
            self.deliver(b, m)

    def deliver(self, node, m):
        self.world.cur = f"fin{self.opn}"
        r = self.op_dec(node, {"op": "dec", "n": node.idx, "id": f"fin{self.opn}", "r": 0}, False, msg=m)
        if r is None:
            return None
        self.wait([r[0]])
        r[1](r[0])
        return r[0]

    def try_send(self, a, b):
        """a sends to b. "ok", a description of the failure, or None if the run can't go on."""
        for x in (a, b):
            for m in list(x.inbox):
                x.inbox.remove(m)
                if m.sender in (a, b):
                    self.deliver(x, m)
        common = [ns for ns in a.loaded if ns in b.loaded]
        before = len(self.world.msgs)
        op = self.sub("enc", a, to=[self.cfg["jids"].index(b.jid)], prio=0, ident=None, policy="trust")
        if op is None or self.stop:
            return None
        if not op.ok:
            self.v(["C19", "C02"], "no-recovery", f"node {a.idx} cannot encrypt for node {b.idx} once faults stopped: {op.exc!r}")
            return None
        sent = [m for m in self.world.msgs[before:] if any((k[0].bare_jid, k[0].device_id) == (b.jid, b.own_id) for k in m.message.keys)]
        if not sent:
            self.v(["C19", "C02"], "no-recovery", f"node {a.idx} does not encrypt for node {b.idx} once faults stopped: {op.result[1]}")
            return None
        for m in sent:
            if m in b.inbox:
                b.inbox.remove(m)
        self.last_ns = sent[0].message.namespace
        got = self.deliver(b, sent[0])
        if got is None:
            return None
        if got.ok:
            return "ok"
        return repr(got.exc)


def r_key(r):
    e = next(iter(r.arg.keys))[0]
    return f"{e.bare_jid}/{e.device_id}"


def run_plan(plan, focus=None):
    return Engine(plan, focus).run()
