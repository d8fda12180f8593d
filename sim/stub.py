"""
SimBackend: an OMEMO backend with symbolic cryptography, complete in behaviour: X3DH with signed and one-time pre keys, a double
ratchet with skipped message keys, all state in the storage the library is given.

The functions on plain session dicts (``dr_*``) are pure, they also are the oracle's reference for what must decrypt.
"""
import base64
import copy
import hashlib
import json

import omemo
from omemo.backend import Backend, DecryptionFailed, KeyExchangeFailed, TooManySkippedMessageKeys
from omemo.bundle import Bundle
from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairPriv, IdentityKeyPairSeed
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, PlainKeyMaterial
from omemo.session import Initiation, Session


def H(*parts) -> str:
    return hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=9).hexdigest()


FORMS = {}      # identity key pairs already looked at


def check_forms(ikp):
    """Both forms of an identity key pair belong to the same identity. Returns what is wrong, if anything."""
    seed, priv = ikp.is_seed, ikp.is_priv
    if (seed, priv) != (isinstance(ikp, IdentityKeyPairSeed), isinstance(ikp, IdentityKeyPairPriv)) or seed == priv:
        return f"{type(ikp).__name__} claims is_seed={seed}, is_priv={priv}"
    try:
        secret = ikp.seed if seed else ikp.priv
        key = (seed, secret, ikp.identity_key)
        if key not in FORMS:
            p = ikp.as_priv()
            q = p.as_priv()
            FORMS[key] = None
            if not isinstance(p, IdentityKeyPairPriv) or not isinstance(q, IdentityKeyPairPriv) or not p.is_priv or p.is_seed:
                FORMS[key] = "the private key form is not a private key"
            elif (IdentityKeyPairSeed if seed else IdentityKeyPairPriv)(secret).identity_key != key[2] \
                    or IdentityKeyPairPriv(p.priv).identity_key != key[2] or q.priv != p.priv or not seed and p.priv != secret:
                FORMS[key] = "the private key form has another identity key"
        return FORMS[key]
    except Exception as e:      # pylint: disable=broad-except
        return f"{type(ikp).__name__}: {e!r}"


# ---------------------------------------------------------------- wire objects
class SimBundle(Bundle):
    def __init__(self, ns, jid, dev, ik, spk, pks, valid=True):
        self.t = (ns, jid, dev, ik, spk, tuple(pks), valid)

    namespace = property(lambda self: self.t[0])
    bare_jid = property(lambda self: self.t[1])
    device_id = property(lambda self: self.t[2])
    identity_key = property(lambda self: self.t[3])
    spk = property(lambda self: self.t[4])
    pks = property(lambda self: self.t[5])
    valid = property(lambda self: self.t[6])

    def __eq__(self, other):
        return isinstance(other, SimBundle) and self.t == other.t

    def __hash__(self):
        return hash(self.t[:5])

    def __repr__(self):
        return f"Bundle({self.t[0]},{self.t[1]},{self.t[2]},ik={self.t[3].hex()[:6]},spk={self.t[4]},{len(self.t[5])} pks)"


class _Tup:
    def __eq__(self, other):
        return type(self) is type(other) and self.t == other.t

    def __hash__(self):
        return hash(self.t)


class SimPKM(_Tup, PlainKeyMaterial):
    def __init__(self, tok):
        self.t = tok


class SimContent(_Tup, Content):
    def __init__(self, empty, lock, payload):
        self.t = (empty, lock, payload)

    empty = property(lambda self: self.t[0])


class SimEKM(_Tup, EncryptedKeyMaterial):
    """header (dh, pn, n), lock: the message key; km: readable only with the message key; sid/peer: ground truth for oracles"""

    def __init__(self, jid, dev, dh, pn, n, lock, km, sid, peer):
        self.t = (jid, dev, dh, pn, n, lock, km, sid, peer)

    bare_jid = property(lambda self: self.t[0])
    device_id = property(lambda self: self.t[1])
    dh = property(lambda self: self.t[2])
    pn = property(lambda self: self.t[3])
    n = property(lambda self: self.t[4])
    lock = property(lambda self: self.t[5])
    km = property(lambda self: self.t[6])
    sid = property(lambda self: self.t[7])
    peer = property(lambda self: self.t[8])

    def __repr__(self):
        return f"EKM(to {self.t[0]}/{self.t[1]} sid={self.t[7]} n={self.t[4]})"

    def replace(self, **kw):
        names = ["jid", "dev", "dh", "pn", "n", "lock", "km", "sid", "peer"]
        d = dict(zip(names, self.t))
        d.update(kw)
        return SimEKM(**d)


class SimKEX(_Tup, KeyExchange):
    def __init__(self, ik, eph, spk, pk):
        self.t = (ik, eph, spk, pk)

    identity_key = property(lambda self: self.t[0])
    eph = property(lambda self: self.t[1])
    spk = property(lambda self: self.t[2])
    pk = property(lambda self: self.t[3])

    def builds_same_session(self, other):
        assert isinstance(other, SimKEX)
        return self.t == other.t

    def __repr__(self):
        return f"KEX(ik={self.t[0].hex()[:6]} {self.t[1]} {self.t[2]} {self.t[3]})"

    def dump(self):
        return [base64.b64encode(self.t[0]).decode(), self.t[1], self.t[2], self.t[3]]

    @staticmethod
    def load(x):
        return SimKEX(base64.b64decode(x[0]), x[1], x[2], x[3])


# ---------------------------------------------------------------- symbolic X3DH and double ratchet on plain dicts
def _x3dh(ik_active, ik_passive, eph, spk, pk):
    return H("x3dh", ik_active.hex(), ik_passive.hex(), eph, spk, pk)


def _dh(a, b):
    return "/".join(sorted((a, b)))


def dr_active(own_ik, peer_ik, kex, dhs):
    sid = _x3dh(own_ik, peer_ik, kex.eph, kex.spk, kex.pk)
    dh = _dh(dhs, kex.spk)
    return {"sid": sid, "ini": "A", "conf": False, "kex": kex.dump(), "peer": peer_ik.hex(), "dhs": dhs, "dhr": kex.spk,
            "root": H("r", sid, dh), "cs": H("c", sid, dh), "ns": 0, "cr": None, "nr": None, "pn": 0, "sk": []}


def dr_passive(own_ik, kex):
    sid = _x3dh(kex.identity_key, own_ik, kex.eph, kex.spk, kex.pk)
    return {"sid": sid, "ini": "P", "conf": True, "kex": kex.dump(), "peer": kex.identity_key.hex(), "dhs": kex.spk,
            "dhr": None, "root": sid, "cs": None, "ns": 0, "cr": None, "nr": None, "pn": 0, "sk": []}


def dr_encrypt(st, jid, dev, km):
    ekm = SimEKM(jid, dev, st["dhs"], st["pn"], st["ns"], H("k", st["cs"], st["ns"]), km, st["sid"], st["peer"])
    st["ns"] += 1
    return ekm


def dr_decrypt(st, ekm, max_session, max_message, new_dh):
    """Returns (new state, key material); raises, leaving ``st`` alone."""
    st = copy.deepcopy(st)
    skid = f"{ekm.dh}:{ekm.n}"
    for entry in st["sk"]:
        if entry[0] == skid:
            if entry[1] != ekm.lock:
                raise DecryptionFailed("authentication failed (skipped key)")
            st["sk"].remove(entry)
            st["conf"] = True
            return st, ekm.km

    skipped = []

    def skip_to(n):
        if n - st["nr"] + len(skipped) > max_message:
            raise TooManySkippedMessageKeys("too many skipped message keys")
        while st["nr"] < n:
            skipped.append([f"{st['dhr']}:{st['nr']}", H("k", st["cr"], st["nr"])])
            st["nr"] += 1

    if ekm.dh != st["dhr"] or st["cr"] is None:
        if st["cr"] is not None:
            if ekm.pn < st["nr"]:
                raise DecryptionFailed("header refers to an old ratchet key")
            skip_to(ekm.pn)
        dh = _dh(st["dhs"], ekm.dh)
        st["cr"], st["root"] = H("c", st["root"], dh), H("r", st["root"], dh)
        st["dhr"], st["nr"] = ekm.dh, 0
        st["pn"], st["ns"] = st["ns"], 0
        st["dhs"] = new_dh()
        dh = _dh(st["dhs"], ekm.dh)
        st["cs"], st["root"] = H("c", st["root"], dh), H("r", st["root"], dh)
    elif ekm.n < st["nr"]:
        raise DecryptionFailed("message key already used or skipped")
    skip_to(ekm.n)
    if H("k", st["cr"], st["nr"]) != ekm.lock:
        raise DecryptionFailed("authentication failed")
    st["nr"] += 1
    st["sk"] = (st["sk"] + skipped)
    st["sk"] = st["sk"][len(st["sk"]) - max_session:] if len(st["sk"]) > max_session else st["sk"]
    st["conf"] = True
    return st, ekm.km


class SimSession(Session):
    def __init__(self, rt, ns, jid, dev, st):
        self.ns_, self.jid, self.dev, self.st = ns, jid, dev, st
        self.hash = rt.next_hash()

    namespace = property(lambda self: self.ns_)
    bare_jid = property(lambda self: self.jid)
    device_id = property(lambda self: self.dev)
    initiation = property(lambda self: Initiation.ACTIVE if self.st["ini"] == "A" else Initiation.PASSIVE)
    confirmed = property(lambda self: self.st["conf"])
    key_exchange = property(lambda self: SimKEX.load(self.st["kex"]))
    receiving_chain_length = property(lambda self: self.st["nr"])
    sending_chain_length = property(lambda self: self.st["ns"])

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other


def prefix(ns):
    return f"/simb/{ns}/"


class SimBackend(Backend):
    """``rt`` is the node: fresh tokens, choices and the clock."""

    def __init__(self, rt, storage, ns, limits):
        args = {}
        if limits[0] is not None:
            args["max_num_per_session_skipped_keys"] = limits[0]
        if limits[1] is not None:
            args["max_num_per_message_skipped_keys"] = limits[1]
        super().__init__(**args)
        self.rt, self.storage, self.ns = rt, storage, ns
        self.hash = hash((rt.idx, ns))

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other

    namespace = property(lambda self: self.ns)

    def __repr__(self):
        return f"SimBackend({self.ns})"

    # -- state
    async def _state(self):
        maybe = await self.storage.load(prefix(self.ns) + "state")
        if maybe.is_just:
            return json.loads(maybe.from_just())
        st = {"gen": self.rt.token("g"), "spk": 1, "ts": self.rt.clock(), "old": None, "pk": [], "hid": [], "nx": 1}
        await self._put(st)
        return st

    async def _put(self, st):
        await self.storage.store(prefix(self.ns) + "state", json.dumps(st))

    async def _ik(self):
        ikp = await IdentityKeyPair.get(self.storage)
        wrong = check_forms(ikp)
        if wrong is not None:
            self.rt.world.obs.v(["C18"], "identity-forms", wrong)
        return ikp.identity_key

    # -- sessions
    async def load_session(self, bare_jid, device_id):
        maybe = await self.storage.load(f"{prefix(self.ns)}s/{bare_jid}/{device_id}")
        if maybe.is_nothing:
            return None
        return SimSession(self.rt, self.ns, bare_jid, device_id, json.loads(maybe.from_just()))

    async def store_session(self, session):
        idx = (await self.storage.load(prefix(self.ns) + "idx")).maybe([])
        name = f"{session.jid}/{session.dev}"
        if name not in idx:
            await self.storage.store(prefix(self.ns) + "idx", idx + [name])
        await self.storage.store(f"{prefix(self.ns)}s/{name}", json.dumps(session.st))

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        assert isinstance(bundle, SimBundle) and bundle.namespace == self.ns
        if not bundle.valid:
            raise KeyExchangeFailed("signature verification failed")
        if not bundle.pks:
            raise KeyExchangeFailed("bundle does not contain pre keys")
        pk = bundle.pks[self.rt.choice(len(bundle.pks))]
        own_ik = await self._ik()
        kex = SimKEX(own_ik, self.rt.token("e"), bundle.spk, pk)
        st = dr_active(own_ik, bundle.identity_key, kex, self.rt.token("d"))
        session = SimSession(self.rt, self.ns, bare_jid, device_id, st)
        return session, dr_encrypt(st, bare_jid, device_id, plain_key_material.t)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        assert isinstance(key_exchange, SimKEX)
        state = await self._state()
        st = build_passive(state, await self._ik(), key_exchange)
        st, km = dr_decrypt(
            st, encrypted_key_material,
            self.max_num_per_session_skipped_keys, self.max_num_per_message_skipped_keys, lambda: self.rt.token("d")
        )
        return SimSession(self.rt, self.ns, bare_jid, device_id, st), SimPKM(km)

    # -- messages
    async def encrypt_plaintext(self, plaintext):
        km = self.rt.token("k")
        return SimContent(False, H("content", km), plaintext), SimPKM(km)

    async def encrypt_empty(self):
        km = self.rt.token("k")
        return SimContent(True, H("content", km), b""), SimPKM(km)

    async def encrypt_key_material(self, session, plain_key_material):
        return dr_encrypt(session.st, session.jid, session.dev, plain_key_material.t)

    async def decrypt_plaintext(self, content, plain_key_material):
        assert not content.empty
        if content.t[1] != H("content", plain_key_material.t):
            raise DecryptionFailed("content authentication failed")
        return content.t[2]

    async def decrypt_key_material(self, session, encrypted_key_material):
        session.st, km = dr_decrypt(
            session.st, encrypted_key_material,
            self.max_num_per_session_skipped_keys, self.max_num_per_message_skipped_keys, lambda: self.rt.token("d")
        )
        return SimPKM(km)

    # -- keys
    async def signed_pre_key_age(self):
        return int(self.rt.clock() - (await self._state())["ts"])

    async def rotate_signed_pre_key(self):
        st = await self._state()
        old_ts = st["ts"]
        st["old"], st["spk"], st["ts"] = st["spk"], st["spk"] + 1, self.rt.clock()
        await self._put(st)
        self.rt.on_rotate(self.ns, old_ts)

    async def hide_pre_key(self, session):
        st = await self._state()
        gen, pk = SimKEX.load(session.st["kex"]).pk.split(".p")
        if gen != st["gen"] or int(pk) not in st["pk"]:
            return False
        st["pk"].remove(int(pk))
        st["hid"].append(int(pk))
        await self._put(st)
        return True

    async def delete_pre_key(self, session):
        st = await self._state()
        gen, pk = SimKEX.load(session.st["kex"]).pk.split(".p")
        if gen != st["gen"] or int(pk) not in st["pk"] + st["hid"]:
            return False
        st["pk"] = [x for x in st["pk"] if x != int(pk)]
        st["hid"] = [x for x in st["hid"] if x != int(pk)]
        await self._put(st)
        return True

    async def delete_hidden_pre_keys(self):
        st = await self._state()
        if st["hid"]:
            st["hid"] = []
            await self._put(st)

    async def get_num_visible_pre_keys(self):
        return len((await self._state())["pk"])

    async def generate_pre_keys(self, num_pre_keys):
        st = await self._state()
        st["pk"] += range(st["nx"], st["nx"] + num_pre_keys)
        st["nx"] += num_pre_keys
        await self._put(st)

    async def get_bundle(self, bare_jid, device_id):
        return bundle_of(await self._state(), self.ns, bare_jid, device_id, await self._ik())

    async def purge(self):
        idx = (await self.storage.load(prefix(self.ns) + "idx")).maybe([])
        for name in idx:
            await self.storage.delete(f"{prefix(self.ns)}s/{name}")
        await self.storage.delete(prefix(self.ns) + "idx")
        await self.storage.delete(prefix(self.ns) + "state")

    async def purge_bare_jid(self, bare_jid):
        idx = (await self.storage.load(prefix(self.ns) + "idx")).maybe([])
        gone = [name for name in idx if name.rsplit("/", 1)[0] == bare_jid]
        if not gone and self.rt.cfg.get("keyerr"):
            raise KeyError(bare_jid)        # as twomemo 1.0 does
        for name in gone:
            await self.storage.delete(f"{prefix(self.ns)}s/{name}")
        if gone:
            await self.storage.store(prefix(self.ns) + "idx", [name for name in idx if name not in gone])


def bundle_of(state, ns, jid, dev, ik):
    gen = state["gen"]
    return SimBundle(ns, jid, dev, ik, f"{gen}.s{state['spk']}", [f"{gen}.p{i}" for i in sorted(state["pk"])])


def build_passive(state, own_ik, kex):
    gen = state["gen"]
    if kex.spk not in (f"{gen}.s{state['spk']}", f"{gen}.s{state['old']}"):
        raise KeyExchangeFailed("unknown signed pre key")
    pk_gen, pk = kex.pk.split(".p")
    if pk_gen != gen or int(pk) not in state["pk"] + state["hid"]:
        raise KeyExchangeFailed("unknown pre key")
    return dr_passive(own_ik, kex)


# ---------------------------------------------------------------- reading a disk from outside
class View:
    """Reads SimBackend's data from a disk (dict key -> JSON)."""

    def __init__(self, data):
        self.data = data

    def _get(self, key):
        raw = self.data.get(key)
        return None if raw is None else json.loads(raw)

    def state(self, ns):
        raw = self._get(prefix(ns) + "state")
        return None if raw is None else json.loads(raw)

    def session(self, ns, jid, dev):
        raw = self._get(f"{prefix(ns)}s/{jid}/{dev}")
        return None if raw is None else json.loads(raw)

    def sessions(self, ns):
        p = f"{prefix(ns)}s/"
        return {k[len(p):]: v for k, v in self.data.items() if k.startswith(p)}

    def raw(self, ns):
        p = prefix(ns)
        return {k: v for k, v in self.data.items() if k.startswith(p)}


def dry_decrypt(view, ns, own_ik, sender_jid, sender_dev, ekm, kex, limits):
    """
    What must happen to this key material, by the rules of the protocol. Returns ("ok", new session state, km) or
    ("err", exception class, None).
    """
    ctr = [0]

    def new_dh():
        ctr[0] += 1
        return f"dry{ctr[0]}"

    max_s = 1000 if limits[0] is None else limits[0]
    max_m = max_s if limits[1] is None else limits[1]
    st = view.session(ns, sender_jid, sender_dev)
    try:
        if kex is None:
            if st is None:
                return ("err", omemo.NoSession, None)
        elif st is None or st["ini"] != "P" or SimKEX.load(st["kex"]).t != kex.t:
            state = view.state(ns)
            if state is None:
                raise KeyExchangeFailed()
            st = build_passive(state, own_ik, kex)
        st, km = dr_decrypt(st, ekm, max_s, max_m, new_dh)
        return ("ok", st, km)
    except omemo.OMEMOException as e:
        return ("err", type(e), None)
