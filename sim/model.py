"""
Reference model of what one node must know, as seen through the public API. Every field is a set of candidates: exactly one after
a successful operation, old and new after one that failed or crashed half-way.
"""


class Dev:
    def __init__(self):
        self.known = {False}
        self.act = {}           # ns -> subset of {None (not supported), True, False}
        self.label = {None}
        self.ik = {None}

    def copy(self):
        d = Dev()
        d.known, d.label, d.ik = set(self.known), set(self.label), set(self.ik)
        d.act = {ns: set(v) for ns, v in self.act.items()}
        return d

    def a(self, ns):
        return self.act.get(ns, {None})

    @property
    def is_known(self):
        return self.known == {True}

    @property
    def maybe_known(self):
        return True in self.known

    @property
    def certain(self):
        return (len(self.known) == 1 and len(self.label) == 1 and len(self.ik) == 1
                and all(len(v) == 1 for v in self.act.values())) or self.known == {False}


def union(a, b):
    d = Dev()
    d.known, d.label, d.ik = a.known | b.known, a.label | b.label, a.ik | b.ik
    for ns in set(a.act) | set(b.act):
        d.act[ns] = a.a(ns) | b.a(ns)
    return d


class Model:
    def __init__(self, undecided):
        self.devs = {}          # jid -> {id: Dev}
        self.trust = {}         # (jid, ik) -> set of names
        self.orphans = set()    # (jid, ik) whose trust was set while no device was sure to have this identity key
        self.undecided = undecided
        self.sync = True
        self.queue = {}         # (ns, jid, dev) -> "must" | "may"

    def dev(self, jid, did):
        return self.devs.setdefault(jid, {}).setdefault(did, Dev())

    def get_trust(self, jid, ik):
        return self.trust.get((jid, ik), {self.undecided})

    def set_trust(self, jid, ik, name, certain=True):
        self.trust[(jid, ik)] = {name} | (set() if certain else self.get_trust(jid, ik))
        if not any(d.ik == {ik} for d in self.known(jid).values()):
            self.orphans.add((jid, ik))

    def known(self, jid):
        return {i: d for i, d in self.devs.get(jid, {}).items() if d.maybe_known}

    def certain(self, jid):
        return all(d.certain for d in self.devs.get(jid, {}).values())

    # -- device lists
    def feed(self, jid, ns, lst, certain=True):
        devs = self.devs.setdefault(jid, {})
        for did in set(devs) | set(lst):
            old = devs.get(did) or Dev()
            new = old.copy()
            if did in lst:
                label = lst[did]
                if old.known == {True}:
                    if label is not None:
                        new.label = {label}
                elif old.known == {False}:
                    new.label = {label}
                    new.act = {}
                else:
                    new.label = {label} if label is not None else old.label | {None}
                    for other in new.act:
                        new.act[other] = new.act[other] | {None}
                new.act[ns] = {True}
                new.known = {True}
            elif ns in new.act:
                new.act[ns] = {False if x is True else x for x in new.act[ns]}
            devs[did] = new if certain else union(old, new)

    def learn_ik(self, jid, did, ik, certain=True):
        d = self.dev(jid, did)
        if None in d.ik:
            d.ik = ({ik} if certain else {ik, None}) | {x for x in d.ik if x is not None}

    def purge(self, jid, certain=True):
        for did, d in self.devs.get(jid, {}).items():
            for ik in d.ik:
                if ik is not None and (jid, ik) in self.trust:
                    # not found if it was set after an interrupted purge removed the identity key
                    missed = None in d.ik and (jid, ik) in self.orphans
                    self.trust[(jid, ik)] = {self.undecided} | (set() if certain and not missed else self.trust[(jid, ik)])
            if not certain:
                n = Dev()
                self.devs[jid][did] = union(d, n)
        if certain:
            self.devs[jid] = {}
