"""Seeded generation of plans: configuration, workload and fault placement, with a profile per property (swarm style)."""
import random

NS = ["urn:om:1", "urn:om:1:old", "eu.axo"]
JIDS = ["ann@x.org", "ann@x.org.uk", "bob@x.org", "an@x.org", "x.org", "\u00fcn:\\20b@x.org"]
LABELS = [None, "phone", "lap top", "", "x" * 60, "\u00fc\u2603"]
LEVELS = ["T1", "T2", "D", "D2", "U", "U2"]
NETS = ["ub", "db", "xb", "ul", "dl", "sm"]
LIMITS = [(None, None), (1000, None), (1000, 1000), (5, 2), (3, 3), (4, None), (1, 1), (0, 0), (0, None), (10, 1), (2000, 1500),
          (None, 10), (7, 6)]

# Base weights of the operations.
BASE = {
    "boot": 4, "enc": 22, "dec": 26, "notif": 14, "upd": 4, "refresh": 4, "info": 4, "trust": 5, "label": 2, "ensure": 3,
    "purge_ns": 1.5, "purge_jid": 2, "sync_begin": 1.5, "sync_end": 3, "replace": 3, "chain": 1, "crash": 2, "clock": 1,
    "sleep": 3, "outage": 1, "drop": 3, "adv_list": 3, "adv_bundle": 3, "par": 5, "drain": 6, "burst": 0, "rush": 0.5, "flap": 0.5,
    "repurge": 0.5, "lists": 0.5, "ens": 0.5, "due": 0.5,
    "stranger": 0.5, "resync": 0.5, "backoff": 0.4, "bpurge": 0.4,
}

# What a property needs more of. "fault": probability that an operation carries faults.
PROFILE = {
    "C01": dict(w=dict(repurge=4, enc=45, trust=10, adv_bundle=10, replace=4, upd=6, par=4), fault=0.2),
    "C02": dict(w=dict(enc=50, trust=8, adv_bundle=8, upd=8, adv_list=6, boot=6), fault=0.25),
    "C03": dict(w=dict(stranger=4, dec=45, trust=10, adv_bundle=6, adv_list=6), forge=0.5, fault=0.2),
    "C04": dict(w=dict(enc=40, dec=50, drop=6, boot=5, crash=4), fault=0.2, final="full"),
    "C05": dict(w=dict(enc=40, dec=40, crash=3, boot=6, replace=4), fault=0.5),
    "C06": dict(w=dict(flap=3, lists=3, upd=25, notif=20, refresh=12, info=10, adv_list=10, boot=6, adv_bundle=5), fault=0.3),
    "C07": dict(w=dict(lists=3, upd=14, notif=25, refresh=10, label=12, adv_list=14, boot=8, par=8), fault=0.3, final=True),
    "C08": dict(w=dict(boot=40, crash=6, adv_list=3), fault=0.7, retry=True, long=0.4),
    "C09": dict(w=dict(boot=16, purge_ns=14, crash=4, sleep=5), fault=0.4, retry=True, rot=0.5),
    "C10": dict(w=dict(ens=2, backoff=2, enc=40, dec=50, sync_begin=4, sync_end=6, replace=10, drop=6, boot=6), fault=0.2, thr=0.8, chat=0.8),
    "C11": dict(w=dict(due=5, backoff=4, sleep=40, boot=10, clock=6, outage=12, crash=6, enc=12, dec=14, purge_ns=3), fault=0.3, rot=1.0),
    "C12": dict(w=dict(enc=40, dec=50, sync_begin=5, sync_end=10, burst=4, rush=3, resync=3, bpurge=2, boot=5, crash=3, outage=2), fault=0.35, chat=0.5),
    "C13": dict(w=dict(ens=6, backoff=2, due=6, ensure=25, adv_list=20, adv_bundle=25, boot=4, sleep=4), fault=0.35, ownadv=0.7, rot=0.4, final=True),
    "C14": dict(w=dict(stranger=2, repurge=6, purge_jid=16, enc=30, dec=30, upd=8, trust=8, info=6), fault=0.35, retry=True),
    "C15": dict(w=dict(replace=30, enc=25, dec=35, adv_bundle=8), fault=0.4, final="full"),
    "C17": dict(w=dict(stranger=2, repurge=2, trust=30, info=14, enc=20, adv_list=6, upd=6, boot=8, replace=4, purge_jid=4), fault=0.25),
    "C18": dict(w=dict(boot=45, crash=8, purge_ns=4, adv_list=6), fault=0.5, retry=True, ids=0.8, long=0.5),
    "C19": dict(w=dict(flap=2, outage=4, crash=6, adv_list=5, drop=6, boot=6, sleep=4), fault=0.35, final="full"),
    "C20": dict(w=dict(enc=55, dec=40, drop=14, boot=3), fault=0.1, limits=1.0, chat=0.9),
    "C23": dict(w=dict(boot=30, crash=4), fault=0.2, long=0.5, bad=0.6),
    "C21": dict(w=dict(lists=8, ens=4, due=4, resync=8, backoff=2, par=60, enc=15, dec=20, notif=10, sync_end=4, sync_begin=3, rush=12), fault=0.1, rot=0.4, chat=0.3),
}

# Rough numbers of events per operation: (network, disk)
COUNTS = {
    "boot": (8, 40), "enc": (6, 60), "dec": (4, 20), "upd": (2, 14), "notif": (2, 14), "refresh": (4, 20), "info": (3, 14), "trust": (1, 1),
    "label": (5, 3), "ensure": (9, 24), "purge_ns": (3, 14), "purge_jid": (1, 30), "sync_end": (4, 20), "replace": (5, 30),
    "chain": (1, 3), "sleep": (6, 12),
}


class Gen:
    def __init__(self, seed, prop):
        self.rng = random.Random(f"plan:{prop}:{seed}")
        self.seed, self.prop, self.p = seed, prop, PROFILE.get(prop, {})
        self.ctr = 0

    def nid(self):
        self.ctr += 1
        return f"o{self.ctr}"

    # -- configuration
    def config(self):
        r, p = self.rng, self.p
        nacc = r.choice([2, 2, 2, 3])
        jids = r.sample(JIDS, nacc)
        ns = r.sample(NS, r.choice([1, 2, 2, 3]))
        if self.prop in ("C08", "C09") and len(ns) == 1:
            ns = r.sample(NS, 2)
        nnodes = r.choice([2, 2, 3, 3, 4])
        if r.random() < p.get("chat", 0):
            nnodes = 2
        rot = r.random() < p.get("rot", 0.2)
        susp = not rot and self.prop != "C21" and r.random() < 0.15
        ids = []
        if r.random() < p.get("ids", 0.25):
            pool = r.choice([[0, 1, 2, 3], [0], [2 ** 31 - 3, 2 ** 31 - 4, 2 ** 31 - 1], list(range(8))])
            ids = [r.choice(pool) for _ in range(r.randint(2, 14))]
        cfg = {"jids": jids, "ns": ns, "ids": ids, "slow_trust": r.random() < 0.3, "lat": r.choice([0, 1, 1, 2]), "pairs": 6}
        self.rot, self.susp, self.cfg = rot, susp, cfg
        nodes = []
        for i in range(nnodes):
            k = r.choice([len(ns)] * 3 + [r.randint(1, len(ns))])
            mine = r.sample(range(len(ns)), k)
            final = mine if r.random() < 0.7 else r.sample(range(len(ns)), r.randint(1, len(ns)))
            limits = {n: list(self.limits() if r.random() < p.get("limits", 0.2) else (None, None)) for n in ns}
            nodes.append({
                "acct": i if i < nacc else r.randrange(nacc), "fw": r.choice("aaat"), "cache": r.random() < 0.6, "susp": susp,
                "ns": mine, "final_ns": final,
                "thr": r.choice([99, 98, 99, 97, 60, 25, r.randint(25, 99)]) if r.random() < p.get("thr", 0.4) else 99,
                "period": r.choice([600, 3600, 86400, 604800, 604800, 60 * r.randint(2, 400)]) if rot else 10 ** 9,
                "label": r.choice(LABELS), "und": r.choice(["U", "U", "U2"]), "limits": limits, "mig": ["seed", "priv", False][min(2, int(r.random() * 13))],
                "keyerr": r.random() < 0.2,
            })
        self.nodes = nodes
        self.n = nnodes
        return cfg, nodes

    def limits(self):
        r = self.rng
        if r.random() < 0.7:
            return r.choice(LIMITS)
        s = int(10 ** (5 * r.random())) - 1
        return s, r.choice([None, r.randint(1, s), s, max(1, s - 1), 1]) if s else r.choice([None, 0])

    # -- faults
    def faults(self, kind, strong=False):
        r = self.rng
        net, disk = COUNTS.get(kind, (2, 6))
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3] if strong else [1, 1, 1, 2])):
            if r.random() < 0.5:
                a = r.choice(["eb", "eb", "ea", "cb", "ca", "slow", "nf"])
                out.append({"c": "net", "k": self.where(net), "a": a})
            else:
                a = r.choice(["eb", "ea", "cb", "ca", "cb", "ca"])
                out.append({"c": "disk", "k": self.where(disk), "a": a})
        return out

    def where(self, n):
        r = self.rng
        if r.random() < 0.6:
            return r.randrange(max(1, n))
        return int(max(1, n) ** r.random()) - 1

    # -- operations
    def op(self, kind, par=False):
        r, p = self.rng, self.p
        s = {"op": kind, "n": r.randrange(self.n), "id": self.nid()}
        f = getattr(self, "g_" + kind, None)
        if f is not None:
            f(s)
        rate = p.get("fault", 0.25) * (0.25 if par else 1.0)
        if kind in COUNTS and kind != "chain" and r.random() < rate * self.fault_scale:
            s["f"] = self.faults(kind)
        return s

    def g_boot(self, s):
        r = self.rng
        c = self.nodes[s["n"]]
        u = r.random()
        change = 0.45 if self.prop in ("C08", "C09", "C18") else 0.35 if self.prop == "C10" else 0.12
        if u < 1 - change:
            s["ns"] = c["ns"]
        elif u < 0.97:
            s["ns"] = r.sample(range(len(self.cfg["ns"])), r.randint(1, len(self.cfg["ns"])))
        else:
            s["ns"] = []
        if u < 0.3:
            s["cache"] = not c["cache"]
        if r.random() < self.p.get("bad", 0.25 if self.prop == "C20" else 0.03):
            s["bad"] = self.bad()
        if r.random() < 0.2:
            s["label"] = r.choice(LABELS)
        if r.random() < 0.4 * self.p.get("thr", 0.2):
            s["thr"] = r.choice([99, 25, r.randint(25, 99)])
        if self.rot and r.random() < 0.2:
            s["period"] = r.choice([600, 3600, 86400, 604800])

    def bad(self):
        """An invalid configuration."""
        r = self.rng
        k = "limits" if self.prop == "C20" else r.choice(["dup", "dup", "thr", "thr", "limits"])
        if k == "dup":
            return ["dup", 99, r.randrange(8), r.randrange(8)]
        if k == "thr":
            return ["thr", r.choice([24, 100, 0, 1, -1, -25, -99, 101, 1000, r.randint(-1000, 24), r.randint(100, 10000)])]
        s = r.choice([0, 1, 2, 5, 1000, r.randint(1, 5000)])
        return ["limits", s, r.choice([s + 1, s + r.randint(1, 1000), -1, -s - 1, -1000] + ([0, 0, 0] if s else []))]

    def g_enc(self, s):
        r = self.rng
        n = len(self.cfg["jids"])
        s["to"] = r.sample(range(n), r.choice([1, 1, 1, min(2, n), n]))
        if r.random() < 0.03:
            s["to"] = []
        s["prio"] = r.choice([0, 0, 0, 0, 1, 1, 2, 3, 4]) if self.prop in ("C02", "C01") else r.choice([0] * 12 + [1, 2, 3, 4])
        s["r"] = r.randrange(100)
        s["ident"] = r.choice([None, "ident", ""])
        s["policy"] = r.choice(["trust", "mix", "mix", "leave", "distrust", "fail", "turn", "turn"] if self.prop == "C01" else
                               ["trust"] * 10 + ["mix", "leave", "distrust", "fail", "turn"])
        if r.random() < self.loss:
            s["lost"] = True

    def g_dec(self, s):
        r = self.rng
        s["r"] = r.randrange(1000)
        s["pick"] = 1 if r.random() < self.reorder else 0
        if r.random() < 0.08:
            s["dup"] = True
        if r.random() < self.p.get("forge", 0.06):
            s["forge"] = r.choice(["ns", "notus", "wrongdev", "wrongdev", "wrongjid", "kexik", "kexik", "nokex", "badpk", "tamper", "skip", "content"])
            s["dup"] = True if r.random() < 0.7 else s.get("dup", False)

    def g_upd(self, s):
        r = self.rng
        s.update(ns=r.randrange(len(self.cfg["ns"])), jid=r.randrange(len(self.cfg["jids"])), base=r.random() < 0.75,
                 drop=r.choice([0, 0, 2, 3]), ghosts=[[r.randrange(8), r.choice(LABELS)] for _ in range(r.choice([0, 0, 1, 2]))])

    def g_notif(self, s):
        r = self.rng
        s.update(r=r.randrange(100), reorder=r.random() < 0.3, lose=r.random() < 0.06)

    def g_refresh(self, s):
        r = self.rng
        s.update(jid=r.randrange(len(self.cfg["jids"])), ns=None if r.random() < 0.5 else r.randrange(len(self.cfg["ns"])))

    def g_info(self, s):
        s["jid"] = self.rng.randrange(len(self.cfg["jids"]))

    def g_trust(self, s):
        if self.rng.random() < 0.2:
            s["ext"] = True
        s.update(r=self.rng.randrange(100), level=self.rng.choice(LEVELS + ["T1"] * 4 + (["weird"] if self.rng.random() < 0.2 else [])))

    def g_label(self, s):
        s["label"] = self.rng.choice(LABELS)

    def g_purge_ns(self, s):
        s.update(ns=self.rng.randrange(len(self.cfg["ns"])), last=self.rng.random() < 0.2)

    def g_purge_jid(self, s):
        s["jid"] = self.rng.randrange(len(self.cfg["jids"]))

    def g_bpurge(self, s):
        s.update(jid=self.rng.randrange(len(self.cfg["jids"])), r=self.rng.randrange(8))

    def g_replace(self, s):
        s["r"] = self.rng.randrange(100)

    g_chain = g_replace

    def g_clock(self, s):
        s["dt"] = self.rng.choice([-3600, 600, 86400, 30 * 86400, -86400])

    def g_sleep(self, s):
        r = self.rng
        per = self.nodes[s["n"]]["period"]
        if per < 10 ** 8:
            s["dt"] = r.choice([per + 61, per / 2, per * 1.0, per + 5, 60, 61, 120, 3600, 2 * per + 150, 7300])
        else:
            s["dt"] = r.choice([1, 60, 3600])

    def g_outage(self, s):
        r = self.rng
        kinds = r.choice([NETS, ["ub"], ["ub"], ["db", "dl"], ["ul"], ["sm"], ["db"]])
        if self.prop == "C11":
            kinds = ["ub"] if r.random() < 0.7 else NETS
        s.update(dt=r.choice([10, 100, 500, 4000, 20000, 90000]), kinds=kinds, all=r.random() < 0.3)

    def g_drop(self, s):
        s.update(r=self.rng.randrange(100), count=self.rng.choice([1, 1, 2, 4]))

    def g_adv_list(self, s):
        r = self.rng
        s.update(ns=r.randrange(len(self.cfg["ns"])), r=r.randrange(100), label=r.choice(LABELS),
                 how=r.choice(["clear", "remove", "own", "own", "ghost", "ghost", "relabel"]))

    def g_adv_bundle(self, s):
        r = self.rng
        own = r.random() < self.p.get("ownadv", 0.35)
        s.update(ns=r.randrange(len(self.cfg["ns"])), r=r.randrange(100), ghost=not own and r.random() < 0.6,
                 how=r.choice(["delete", "swap", "same_ik", "new", "invalid", "empty", "fewer", "spk"]))

    def g_drain(self, s):
        r = self.rng
        s["n"] = None if r.random() < 0.5 else s["n"]
        s["kinds"] = r.choice([["notif"], ["dec"], ["notif", "dec"]])

    def g_burst(self, s):
        s.update(to=self.rng.randrange(self.n), len=self.rng.choice([52, 53, 53, 54]), reply=self.rng.random() < 0.6)

    def g_par(self, s):
        r = self.rng
        one = r.random() < 0.7
        n = r.randrange(self.n)
        kinds = ["enc"] * 6 + ["dec"] * 7 + ["notif"] * 3 + ["upd"] * 2 + ["refresh"] * 2 + ["info", "trust", "replace", "replace", "ensure",
                                                                                         "sync_end", "label", "chain"]
        if self.prop == "C07":
            kinds += ["notif"] * 6 + ["label"] * 2 + ["refresh"] * 4
        s["ops"] = []
        for _ in range(r.choice([2, 2, 3, 4])):
            o = self.op(r.choice(kinds), par=True)
            if one:
                o["n"] = n
            if o["op"] in ("sync_end", "label", "ensure") and any((x["op"], x["n"]) == (o["op"], o["n"]) for x in s["ops"]):
                continue
            s["ops"].append(o)

    def rush(self):
        """Several devices start (or replace) sessions with one device, which processes the messages at the same time."""
        r = self.rng
        n = r.randrange(self.n)
        out = []
        if r.random() < 0.6:
            out.append({"op": "sync_begin", "n": n, "id": self.nid()})
        for i in range(self.n):
            if i != n:
                kind = r.choice(["enc", "replace"])
                o = dict(self.op(kind), n=i)
                o.pop("f", None)
                if kind == "enc":
                    o.update(to=[self.nodes[n]["acct"]], policy="trust", prio=0)
                    o.pop("lost", None)
                out.append(o)
        if r.random() < 0.5:
            out.append({"op": "refresh", "n": n, "id": self.nid(), "jid": r.randrange(len(self.cfg["jids"])), "ns": None})
        decs = []
        for _ in range(r.choice([2, 2, 3, 4])):
            d = dict(self.op(r.choice(["dec"] * 8 + ["enc", "notif", "replace"]), par=True), n=n)
            if d["op"] == "dec":
                d.pop("forge", None)
            decs.append(d)
        out.append({"op": "par", "n": n, "id": self.nid(), "ops": decs} if not self.susp else decs[0])
        if r.random() < 0.7:
            out.append({"op": "sync_end", "n": n, "id": self.nid()})
        return out

    def flap(self):
        """A device is listed and unlisted for several backends, with a failure or crash in between."""
        r = self.rng
        n, jid, g = r.randrange(self.n), r.randrange(len(self.cfg["jids"])), r.randrange(8)
        out = []
        for _ in range(r.choice([3, 4, 5])):
            o = {"op": "upd", "n": n, "id": self.nid(), "ns": r.randrange(len(self.cfg["ns"])), "jid": jid, "base": r.random() < 0.2, "drop": 0,
                 "ghosts": [[g, r.choice(LABELS)]] if r.random() < 0.6 else []}
            out.append(o)
            if r.random() < 0.4 * self.fault_scale:
                o["f"] = [{"c": "disk", "k": r.randrange(10), "a": r.choice(["eb", "cb", "ca"])}]
                out.append(dict(self.op("boot"), n=n, ns=self.nodes[n]["ns"]))
                out[-1].pop("f", None)
            if r.random() < 0.3:
                out.append({"op": "info", "n": n, "id": self.nid(), "jid": jid})
        return out

    def repurge(self):
        """Purging an account is interrupted and repeated, then the account comes back."""
        r = self.rng
        n = r.randrange(self.n)
        foreign = [i for i in range(len(self.cfg["jids"])) if i != self.nodes[n]["acct"]]
        at = r.randrange(len(foreign))      # purge_jid counts the foreign accounts only
        jid = foreign[at]
        peers = [i for i, c in enumerate(self.nodes) if c["acct"] == jid]
        upd = lambda: {"op": "upd", "n": n, "id": self.nid(), "ns": r.randrange(len(self.cfg["ns"])), "jid": jid, "base": True, "drop": 0,
                       "ghosts": [[r.randrange(8), r.choice(LABELS)] for _ in range(r.choice([0, 1, 2]))]}
        look = lambda: {"op": r.choice(["info", "info", "enc", "dec"]), "n": n, "id": self.nid(), "jid": jid, "to": [jid], "prio": 0, "r": r.randrange(100),
                        "ident": None, "policy": r.choice(["trust", "mix"]), "pick": 0}
        out = [upd(), {"op": "info", "n": n, "id": self.nid(), "jid": jid}]
        for _ in range(r.choice([1, 2, 3])):
            out.append({"op": "trust", "n": n, "id": self.nid(), "r": r.randrange(100), "level": r.choice(LEVELS)})
        if r.random() < 0.5:
            out.append({"op": "enc", "n": n, "id": self.nid(), "to": [jid], "prio": 0, "r": 0, "ident": None, "policy": "trust"})
        p = {"op": "purge_jid", "n": n, "jid": at}
        reborn = peers and r.random() < (0.6 if self.prop in ("C01", "C15", "C17") else 0.2)
        for _ in range(r.choice([1, 1, 2])):
            out.append(dict(p, id=self.nid(), f=[{"c": "disk", "k": r.randrange(r.choice([6, 12, 30])), "a": r.choice(["eb", "ea", "cb", "ca"])}]))
            out.append({"op": "boot", "n": n, "id": self.nid(), "ns": self.nodes[n]["ns"]})
            if r.random() < 0.3:
                out.append(look())
        if reborn:      # the devices come back with other identity keys
            for k in range(len(self.cfg["ns"])):
                out.append({"op": "adv_bundle", "n": r.choice(peers), "id": self.nid(), "ns": k, "r": r.randrange(100), "ghost": False,
                            "how": r.choice(["swap", "swap", "new"])})
        if r.random() < (0.3 if reborn else 0.8):
            out.append(dict(p, id=self.nid()))
        for _ in range(r.choice([1, 2])):
            out.append(upd() if r.random() < 0.6 else {"op": "refresh", "n": n, "id": self.nid(), "jid": jid, "ns": None})
        out += [look(), look()]
        return out

    def lists(self):
        """Several device lists of the own account are processed at once, some of which have to be republished."""
        r = self.rng
        n = r.randrange(self.n)
        jid = self.nodes[n]["acct"]
        ops = []
        for _ in range(r.choice([2, 2, 3, 4])):
            if r.random() < 0.75:
                ops.append({"op": "upd", "n": n, "id": self.nid(), "ns": r.randrange(len(self.cfg["ns"])), "jid": jid,
                            "base": r.random() < 0.25, "drop": 0, "ghosts": [[r.randrange(8), r.choice(LABELS)] for _ in range(r.choice([1, 2]))]})
            else:
                o = self.op(r.choice(["notif", "refresh", "enc"] + (["label"] if not any(x["op"] == "label" for x in ops) else [])), par=True)
                ops.append(dict(o, n=n))
        out = [{"op": "par", "n": n, "id": self.nid(), "ops": ops} if not self.susp else ops[0]]
        if r.random() < 0.5:
            out.append({"op": "info", "n": n, "id": self.nid(), "jid": jid})
        return out

    def ens(self):
        """Consistency is ensured while messages that use pre keys come in."""
        r = self.rng
        n = r.randrange(self.n)
        out = []
        for i in range(self.n):
            if i != n:
                out.append({"op": "enc", "n": i, "id": self.nid(), "to": [self.nodes[n]["acct"]], "prio": 0, "r": 0, "ident": None,
                            "policy": "trust"})
        ops = [{"op": "ensure", "n": n, "id": self.nid()}]
        for _ in range(r.choice([1, 2, 3])):
            ops.insert(r.randint(0, len(ops)), {"op": "dec", "n": n, "id": self.nid(), "r": r.randrange(100), "pick": 0})
        if r.random() < 0.2:
            ops[0]["f"] = self.faults(ops[0]["op"])
        return out + ([{"op": "par", "n": n, "id": self.nid(), "ops": ops}] if not self.susp else ops)

    def due(self):
        """The rotation is due right after loading, while something else publishes."""
        r = self.rng
        n = r.randrange(self.n)
        c = self.nodes[n]
        out = [{"op": "crash", "n": n, "id": self.nid()}]
        per = c["period"] if c["period"] < 10 ** 8 else 600
        out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": r.choice([per * 1.01 + 1, per / 2, 2 * per])})
        out.append({"op": "boot", "n": n, "id": self.nid(), "ns": c["ns"]})
        kinds = ["ensure", "ensure", "ensure", "dec", "label", "refresh", "purge_ns", "purge_ns"]
        k = r.choice(kinds)
        if k == "purge_ns":     # a backend is removed while the rotation waits for the upload of a bundle
            for ns in r.sample(range(len(self.cfg["ns"])), r.choice([1, 1, min(2, len(self.cfg["ns"]))])):
                out.append({"op": "purge_ns", "n": n, "id": self.nid(), "ns": ns, "last": False})
            out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": r.choice([2 * per + 150, per + 100, per / 2])})
            if r.random() < 0.5:
                out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": 2 * per + 150})
            return out
        if r.random() < 0.4 and not self.susp:
            ops = [dict(self.op(k, par=True), n=n)] + [dict(self.op("dec", par=True), n=n) for _ in range(r.choice([1, 2]))]
            out.append({"op": "par", "n": n, "id": self.nid(), "ops": ops})
        else:
            out.append(dict(self.op(k), n=n))
        return out

    def stranger(self):
        """A device sends to one that does not know it (any more), but has decided about the trust of its identity key."""
        r = self.rng
        n = r.randrange(self.n)
        own = self.nodes[n]["acct"]
        foreign = [i for i in range(len(self.cfg["jids"])) if i != own]
        at = r.randrange(len(foreign))
        peers = [i for i, c in enumerate(self.nodes) if c["acct"] == foreign[at]]
        out = [{"op": "purge_jid", "n": n, "id": self.nid(), "jid": at}]
        for _ in range(r.choice([1, 2])):
            out.append({"op": "trust", "n": n, "id": self.nid(), "ext": True, "r": r.randrange(100), "level": r.choice(LEVELS)})
        for i in peers:
            u = r.random()
            if u < 0.5:
                mine = [k for k in range(len(self.cfg["jids"])) if k != self.nodes[i]["acct"]].index(own)
                out.append({"op": "purge_jid", "n": i, "id": self.nid(), "jid": mine})
            elif u < 0.7:
                out.append({"op": "replace", "n": i, "id": self.nid(), "r": r.randrange(100)})
            out.append({"op": "enc", "n": i, "id": self.nid(), "to": [own], "prio": 0, "r": 0, "ident": None, "policy": "trust"})
        for _ in range(r.choice([1, 2, 3])):
            out.append(self.op("dec"))
            out[-1].update(n=n)
            if r.random() < 0.8:
                out[-1].pop("forge", None)
        return out

    def hello(self, i, n):
        """Device i sends something that carries a key exchange to device n."""
        r = self.rng
        if r.random() < 0.6:
            return {"op": "replace", "n": i, "id": self.nid(), "r": r.randrange(100)}
        return {"op": "enc", "n": i, "id": self.nid(), "to": [self.nodes[n]["acct"]], "prio": 0, "r": 0, "ident": None, "policy": "trust"}

    def resync(self):
        """Synchronization is left and entered again at once, while messages come in."""
        r = self.rng
        n = r.randrange(self.n)
        others = [i for i in range(self.n) if i != n]
        dec = lambda: {"op": "dec", "n": n, "id": self.nid(), "r": r.randrange(100), "pick": 0}
        out = [{"op": "sync_begin", "n": n, "id": self.nid()}]
        out += [self.hello(i, n) for i in others] + [dec() for _ in others]
        out += [self.hello(r.choice(others), n) for _ in range(r.choice([1, 2, 3]))]
        ops = [{"op": "sync_end", "n": n, "id": self.nid()}, {"op": "sync_begin", "n": n, "id": self.nid()}]
        ops += [dec() for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < 0.2:
            ops.insert(1, dec())
        if r.random() < 0.15 * self.fault_scale:
            ops[0]["f"] = self.faults("sync_end")
        out += [{"op": "par", "n": n, "id": self.nid(), "ops": ops}] if not self.susp else ops
        out.append({"op": "sync_end", "n": n, "id": self.nid()})
        return out

    def backoff(self):
        """Publishing a rotated signed pre key fails, and messages that use pre keys come in before it is tried again."""
        r = self.rng
        n = r.randrange(self.n)
        c = self.nodes[n]
        per = c["period"] if c["period"] < 10 ** 8 else 600
        out = [self.hello(r.choice([i for i in range(self.n) if i != n]), n) for _ in range(r.choice([1, 2]))]
        out.append({"op": "crash", "n": n, "id": self.nid()})
        wait, end = r.choice([(30, 20), (30, 20), (100, 80), (300, 250), (61, 90), (5000, 4000)])
        late = per * 1.01 + 1
        out.append({"op": "outage", "n": n, "id": self.nid(), "dt": late + end, "kinds": ["ub"], "all": False})
        out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": late})
        out.append({"op": "boot", "n": n, "id": self.nid(), "ns": c["ns"], "period": per})
        out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": wait})
        for _ in range(r.choice([1, 2])):
            out.append({"op": r.choice(["dec", "dec", "dec", "ensure", "sync_end"]), "n": n, "id": self.nid(), "r": r.randrange(100), "pick": 0})
        out.append({"op": "sleep", "n": n, "id": self.nid(), "dt": r.choice([61, 130, 500, 3700])})
        return out

    # -- plan
    def plan(self):
        r, p = self.rng, self.p
        cfg, nodes = self.config()
        w = dict(BASE)
        w.update(p.get("w", {}))
        for k in list(w):
            if r.random() < 0.12 and k not in p.get("w", {}):
                w[k] = 0        # swarm
        if self.susp:
            w["par"] = 0
        if not self.rot:
            w["clock"] = 0
        self.loss = r.choice([0, 0.1, 0.3])
        self.reorder = r.choice([0, 0.3, 0.8])
        if self.prop == "C20":
            self.loss = r.choice([0.2, 0.5, 0.7])
        self.fault_scale = r.choice([0, 0.4, 1, 1]) if self.prop not in ("C08",) else 1
        ops = []
        # start up
        order = list(range(self.n))
        r.shuffle(order)
        if r.random() < (0.35 if self.prop in ("C07", "C18", "C21") else 0.1) and not self.susp:
            cfg["ids"] = []         # two devices could draw the same id at the same time
            ops.append({"op": "par", "n": 0, "id": self.nid(), "ops": [
                {"op": "boot", "n": i, "id": self.nid(), "ns": nodes[i]["ns"]} for i in order]})
        for i in order:
            b = {"op": "boot", "n": i, "id": self.nid(), "ns": nodes[i]["ns"]}
            if r.random() < (0.3 if self.prop == "C23" else 0.01):
                b["bad"] = self.bad()
            if r.random() < p.get("fault", 0.25) * self.fault_scale * (1 if p.get("retry") else 0.4):
                b["f"] = self.faults("boot", strong=True)
                ops.append(b)
                b = dict(b, id=self.nid())
                b.pop("f")
            ops.append(b)
        ops.append({"op": "drain", "n": None, "id": self.nid(), "kinds": ["notif"]})
        if r.random() < 0.7:
            for i in order:
                ops.append({"op": "sync_end", "n": i, "id": self.nid()})
        # conversation
        length = int(r.choice([12, 25, 40, 60]) * p.get("long", 1))
        kinds, weights = zip(*[(k, x) for k, x in w.items() if x > 0])
        while len(ops) < length + self.n:
            k = r.choices(kinds, weights)[0]
            if k == "rush":
                ops += self.rush()
                continue
            if k in ("flap", "repurge", "lists", "ens", "due", "stranger", "resync", "backoff"):
                ops += getattr(self, k)()
                continue
            o = self.op(k)
            ops.append(o)
            if k == "outage":
                continue
            if k == "crash" or (o.get("f") and r.random() < 0.6):
                # come back, sometimes repeating what failed
                ops.append(dict(self.op("boot"), n=o["n"], ns=nodes[o["n"]]["ns"]))
                if r.random() < 0.5:
                    ops[-1].pop("f", None)
                if p.get("retry") and k in ("boot", "purge_ns", "purge_jid") and r.random() < 0.7:
                    ops.append(dict(o, id=self.nid(), f=self.faults(k) if r.random() < 0.4 else []))
                    if r.random() < 0.6:
                        ops.append(dict(o, id=self.nid(), f=[]))
            if k == "enc" and r.random() < 0.25:
                ops.append(self.op("dec"))
        final = p.get("final")
        if final is None:
            final = r.choice([False, False, True, "full"])
        elif final is True:
            final = r.choice([True, True, "full"])
        return {"seed": f"{self.prop}:{self.seed}", "cfg": cfg, "nodes": nodes, "ops": ops, "final": final}


def make_plan(seed, prop):
    return Gen(seed, prop).plan()
