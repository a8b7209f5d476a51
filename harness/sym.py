"""
Symbolic OMEMO backend used to drive the real ``omemo.SessionManager``.

It implements the documented contract of ``omemo.Backend`` with symbolic cryptography, so that every
cryptographically relevant fact (which session, which chain position, which pre key, which identity key) is visible
in the recorded traces and can be computed by the TLA+ specification (spec/Omemo.tla, "symbolic ratchet").
All persistent data is kept in the ``omemo.Storage`` handed in, one JSON value per session / key store.
"""
import asyncio
import hashlib
from typing import Any, Optional, Tuple

import omemo
from omemo.backend import DecryptionFailed, KeyExchangeFailed
from omemo.identity_key_pair import IdentityKeyPair
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, PlainKeyMaterial
from omemo.session import Initiation, Session


class SymKeyExchangeFailed(KeyExchangeFailed):
    pass


class SymDecryptionFailed(DecryptionFailed):
    pass


class SymContent(Content):
    def __init__(self, empty: bool, kid: str, pt: bytes, bad: bool = False) -> None:
        self._empty, self.kid, self.pt, self.bad = empty, kid, pt, bad

    @property
    def empty(self) -> bool:
        return self._empty


class SymPKM(PlainKeyMaterial):
    def __init__(self, kid: str) -> None:
        self.kid = kid


class SymEKM(EncryptedKeyMaterial):
    def __init__(self, jid: str, dev: int, sid: str, e: int, n: int, kid: str, bad: bool = False) -> None:
        self._jid, self._dev = jid, dev
        self.sid, self.e, self.n, self.kid, self.bad = sid, e, n, kid, bad

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev


class SymKex(KeyExchange):
    def __init__(self, ik: bytes, sid: str, pk: str, spk: str) -> None:
        self._ik, self.sid, self.pk, self.spk = ik, sid, pk, spk

    @property
    def identity_key(self) -> bytes:
        return self._ik

    def builds_same_session(self, other: KeyExchange) -> bool:
        assert isinstance(other, SymKex)
        return (self._ik, self.sid, self.pk, self.spk) == (other._ik, other.sid, other.pk, other.spk)


class SymBundle(omemo.Bundle):
    def __init__(self, ns: str, jid: str, dev: int, ik: bytes, spk: str, pks: Any, sig: bool = True) -> None:
        self._ns, self._jid, self._dev, self._ik = ns, jid, dev, ik
        self.spk, self.pks, self.sig = spk, frozenset(pks), sig
        self._digest: Optional[str] = None

    @property
    def namespace(self) -> str:
        return self._ns

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev

    @property
    def identity_key(self) -> bytes:
        return self._ik

    def _tuple(self) -> Any:
        return (self._ns, self._jid, self._dev, self._ik, self.spk, self.pks, self.sig)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymBundle) and self._tuple() == other._tuple()

    def __hash__(self) -> int:
        return hash(self._tuple())

    @property
    def digest(self) -> str:
        if self._digest is None:
            m = hashlib.sha256()
            m.update(repr((self._ns, self._jid, self._dev, self._ik, self.spk, sorted(self.pks), self.sig)).encode())
            self._digest = m.hexdigest()[:12]
        return self._digest


class SymSession(Session):
    """In-memory session object: a plain copy of the persisted record."""

    def __init__(self, ns: str, jid: str, dev: int, rec: dict) -> None:
        self._ns, self._jid, self._dev, self.rec = ns, jid, dev, rec

    @property
    def namespace(self) -> str:
        return self._ns

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev

    @property
    def initiation(self) -> Initiation:
        return Initiation.ACTIVE if self.rec["init"] == "A" else Initiation.PASSIVE

    @property
    def confirmed(self) -> bool:
        return self.rec["conf"]

    @property
    def key_exchange(self) -> KeyExchange:
        k = self.rec["kex"]
        return SymKex(bytes.fromhex(k[0]), k[1], k[2], k[3])

    @property
    def receiving_chain_length(self) -> Optional[int]:
        return None if self.rec["re"] == 0 else self.rec["rn"]

    @property
    def sending_chain_length(self) -> int:
        return self.rec["sn"]


class SymBackend(omemo.Backend):
    """
    ``world`` supplies fresh names and the clock; everything persistent goes through ``storage``.
    Storage layout: /sym/<ns>/keys, /sym/<ns>/jids, /sym/<ns>/devs/<jid>, /sym/<ns>/ses/<jid>/<dev>
    """

    def __init__(self, world: Any, ns: str, storage: omemo.Storage) -> None:
        super().__init__()
        self._w, self._ns, self._st = world, ns, storage
        self._lock = asyncio.Lock()

    @property
    def namespace(self) -> str:
        return self._ns

    # -- keys ---------------------------------------------------------------------------------------------
    async def _keys(self) -> dict:
        m = await self._st.load(f"/sym/{self._ns}/keys")
        if m.is_just:
            return m.from_just()  # type: ignore
        k = {"spk": self._w.fresh("spk", self._ns), "old": "~", "t": self._w.now(), "v": [], "h": []}
        await self._st.store(f"/sym/{self._ns}/keys", k)
        return k

    async def _put(self, k: dict) -> None:
        await self._st.store(f"/sym/{self._ns}/keys", k)

    async def signed_pre_key_age(self) -> int:
        self._w.tick("age", self._ns)
        return int(self._w.now() - (await self._keys())["t"])

    async def rotate_signed_pre_key(self) -> None:
        k = await self._keys()
        k["old"], k["spk"], k["t"] = k["spk"], self._w.fresh("spk", self._ns), self._w.now()
        await self._put(k)
        self._w.tick("rotate", self._ns)

    async def hide_pre_key(self, session: Session) -> bool:
        assert isinstance(session, SymSession)
        k = await self._keys()
        pk = session.rec["kex"][2]
        if session.rec["init"] != "P" or pk not in k["v"]:
            return False
        k["v"].remove(pk)
        k["h"].append(pk)
        await self._put(k)
        return True

    async def delete_pre_key(self, session: Session) -> bool:
        assert isinstance(session, SymSession)
        k = await self._keys()
        pk = session.rec["kex"][2]
        if session.rec["init"] != "P" or (pk not in k["v"] and pk not in k["h"]):
            return False
        k["v"] = [p for p in k["v"] if p != pk]
        k["h"] = [p for p in k["h"] if p != pk]
        await self._put(k)
        return True

    async def delete_hidden_pre_keys(self) -> None:
        k = await self._keys()
        if k["h"]:
            k["h"] = []
            await self._put(k)

    async def get_num_visible_pre_keys(self) -> int:
        return len((await self._keys())["v"])

    async def generate_pre_keys(self, num_pre_keys: int) -> None:
        k = await self._keys()
        k["v"] += [self._w.fresh("pk", self._ns) for _ in range(num_pre_keys)]
        await self._put(k)

    async def get_bundle(self, bare_jid: str, device_id: int) -> omemo.Bundle:
        k = await self._keys()
        ik = (await IdentityKeyPair.get(self._st)).identity_key
        return SymBundle(self._ns, bare_jid, device_id, ik, k["spk"], k["v"])

    # -- sessions -----------------------------------------------------------------------------------------
    async def load_session(self, bare_jid: str, device_id: int) -> Optional[Session]:
        m = await self._st.load(f"/sym/{self._ns}/ses/{bare_jid}/{device_id}")
        if m.is_nothing:
            return None
        return SymSession(self._ns, bare_jid, device_id, m.from_just())  # type: ignore

    async def store_session(self, session: Session) -> None:
        assert isinstance(session, SymSession)
        jid, dev = session.bare_jid, session.device_id
        async with self._lock:
            jids = (await self._st.load(f"/sym/{self._ns}/jids")).maybe([])
            if jid not in jids:  # type: ignore
                await self._st.store(f"/sym/{self._ns}/jids", jids + [jid])  # type: ignore
        devs = (await self._st.load(f"/sym/{self._ns}/devs/{jid}")).maybe([])
        if dev not in devs:  # type: ignore
            await self._st.store(f"/sym/{self._ns}/devs/{jid}", devs + [dev])  # type: ignore
        await self._st.store(f"/sym/{self._ns}/ses/{jid}/{dev}", session.rec)

    async def build_session_active(self, bare_jid: str, device_id: int, bundle: omemo.Bundle,
                                   plain_key_material: PlainKeyMaterial) -> Tuple[Session, EncryptedKeyMaterial]:
        assert isinstance(bundle, SymBundle) and isinstance(plain_key_material, SymPKM)
        if not bundle.sig or not bundle.pks:
            raise SymKeyExchangeFailed("bundle unusable")
        own_ik = (await IdentityKeyPair.get(self._st)).identity_key
        sid = self._w.fresh("c", self._ns, bare_jid, str(device_id))
        pk = min(bundle.pks)
        rec = {
            "sid": sid, "init": "A", "conf": False, "pik": bundle.identity_key.hex(),
            "kex": [own_ik.hex(), sid, pk, bundle.spk], "ep": 1, "sn": 1, "re": 0, "rn": 0, "seen": []
        }
        # the namespace/jid/device of the bundle actually used is part of the symbolic session's fate: a bundle of
        # somebody else yields a session nobody can answer
        if (bundle.namespace, bundle.bare_jid, bundle.device_id) != (self._ns, bare_jid, device_id):
            rec["pik"] = "ff" * 32
        return (SymSession(self._ns, bare_jid, device_id, rec),
                SymEKM(bare_jid, device_id, sid, 1, 1, plain_key_material.kid))

    async def build_session_passive(self, bare_jid: str, device_id: int, key_exchange: KeyExchange,
                                    encrypted_key_material: EncryptedKeyMaterial) -> Tuple[Session, PlainKeyMaterial]:
        assert isinstance(key_exchange, SymKex) and isinstance(encrypted_key_material, SymEKM)
        k = await self._keys()
        ekm = encrypted_key_material
        if key_exchange.pk not in k["v"] + k["h"] or key_exchange.spk not in (k["spk"], k["old"]):
            raise SymKeyExchangeFailed("unknown (signed) pre key")
        if ekm.bad or ekm.sid != key_exchange.sid or ekm.e != 1:
            raise SymDecryptionFailed("initial key material not decryptable")
        rec = {
            "sid": key_exchange.sid, "init": "P", "conf": False, "pik": key_exchange.identity_key.hex(),
            "kex": [key_exchange.identity_key.hex(), key_exchange.sid, key_exchange.pk, key_exchange.spk],
            "ep": 2, "sn": 0, "re": 1, "rn": ekm.n, "seen": [[1, ekm.n]]
        }
        return SymSession(self._ns, bare_jid, device_id, rec), SymPKM(ekm.kid)

    async def encrypt_plaintext(self, plaintext: bytes) -> Tuple[Content, PlainKeyMaterial]:
        kid = self._w.fresh("k", self._ns)
        return SymContent(False, kid, plaintext), SymPKM(kid)

    async def encrypt_empty(self) -> Tuple[Content, PlainKeyMaterial]:
        kid = self._w.fresh("k", self._ns)
        return SymContent(True, kid, b""), SymPKM(kid)

    async def encrypt_key_material(self, session: Session, plain_key_material: PlainKeyMaterial) -> EncryptedKeyMaterial:
        assert isinstance(session, SymSession) and isinstance(plain_key_material, SymPKM)
        r = session.rec
        r["sn"] += 1
        return SymEKM(session.bare_jid, session.device_id, r["sid"], r["ep"], r["sn"], plain_key_material.kid)

    async def decrypt_plaintext(self, content: Content, plain_key_material: PlainKeyMaterial) -> bytes:
        assert isinstance(content, SymContent) and isinstance(plain_key_material, SymPKM)
        assert not content.empty
        if content.bad or content.kid != plain_key_material.kid:
            raise SymDecryptionFailed("payload authentication failed")
        return content.pt

    async def decrypt_key_material(self, session: Session, encrypted_key_material: EncryptedKeyMaterial) -> PlainKeyMaterial:
        assert isinstance(session, SymSession) and isinstance(encrypted_key_material, SymEKM)
        r, m = session.rec, encrypted_key_material
        own_parity = 1 if r["init"] == "A" else 0
        if m.bad or m.sid != r["sid"] or m.e % 2 == own_parity or [m.e, m.n] in r["seen"] or m.n < 1 or m.e < 1:
            raise SymDecryptionFailed("key material not decryptable")
        if m.e > r["re"]:
            r["re"], r["rn"], r["ep"], r["sn"] = m.e, m.n, m.e + 1, 0
        elif m.e == r["re"]:
            r["rn"] = max(r["rn"], m.n)
        r["seen"].append([m.e, m.n])
        r["conf"] = True
        return SymPKM(m.kid)

    # -- purge --------------------------------------------------------------------------------------------
    async def purge(self) -> None:
        for jid in list((await self._st.load(f"/sym/{self._ns}/jids")).maybe([])):  # type: ignore
            await self.purge_bare_jid(jid)
        await self._st.delete(f"/sym/{self._ns}/jids")
        await self._st.delete(f"/sym/{self._ns}/keys")

    async def purge_bare_jid(self, bare_jid: str) -> None:
        for dev in (await self._st.load(f"/sym/{self._ns}/devs/{bare_jid}")).maybe([]):  # type: ignore
            await self._st.delete(f"/sym/{self._ns}/ses/{bare_jid}/{dev}")
        await self._st.delete(f"/sym/{self._ns}/devs/{bare_jid}")
        jids = (await self._st.load(f"/sym/{self._ns}/jids")).maybe([])
        if bare_jid in jids:  # type: ignore
            await self._st.store(f"/sym/{self._ns}/jids", [j for j in jids if j != bare_jid])  # type: ignore
