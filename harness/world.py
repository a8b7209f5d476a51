"""
The environment of one client under test: fake XMPP server, persistent storage with crash/failure injection,
application callbacks, virtual clock.  Drives the *real* ``omemo`` package and projects its externally visible and
persisted state to the relational form used by the TLA+ specification.
"""
import asyncio
import contextvars
import base64
import copy
import json
import signal
import secrets
import random
from typing import Any, Dict, FrozenSet, List, Optional, Set, Tuple, Type

import omemo
from omemo.storage import Just, Maybe, Nothing, Storage, StorageException
from omemo.types import AsyncFramework, DeviceInformation, OMEMOException, TrustLevel
from omemo.message import Message
import omemo.session_manager as sm_mod

from sym import SymBackend, SymBundle, SymContent, SymEKM, SymKex, SymPKM


class Crash(BaseException):
    """The process under test dies."""


class Hang(BaseException):
    """Watchdog."""


# Applications are documented to be free to raise subclasses, so this one does.
class AppBundleUploadFailed(omemo.BundleUploadFailed): pass
class AppBundleDownloadFailed(omemo.BundleDownloadFailed): pass
class AppBundleNotFound(omemo.BundleNotFound): pass
class AppBundleDeletionFailed(omemo.BundleDeletionFailed): pass
class AppDeviceListUploadFailed(omemo.DeviceListUploadFailed): pass
class AppDeviceListDownloadFailed(omemo.DeviceListDownloadFailed): pass
class AppMessageSendingFailed(omemo.MessageSendingFailed): pass
class AppUnknownTrustLevel(omemo.UnknownTrustLevel): pass
class AppTrustDecisionFailed(omemo.TrustDecisionFailed): pass
class AppUnknownNamespace(omemo.UnknownNamespace): pass
class AppStorageException(StorageException): pass


DOCUMENTED = {
    "TrustDecisionFailed", "StillUndecided", "NoEligibleDevices", "MessageNotForUs", "SenderNotFound",
    "SenderDistrusted", "NoSession", "PublicDataInconsistency", "UnknownTrustLevel", "UnknownNamespace",
    "BundleUploadFailed", "BundleDownloadFailed", "BundleNotFound", "BundleDeletionFailed",
    "DeviceListUploadFailed", "DeviceListDownloadFailed", "MessageSendingFailed", "StorageException",
    "KeyExchangeFailed", "DecryptionFailed", "TooManySkippedMessageKeys"
}

# custom trust level names of the application and their meaning; everything else is unknown to it
LEVELS = {
    "trusted": TrustLevel.TRUSTED, "verified": TrustLevel.TRUSTED,
    "blocked": TrustLevel.DISTRUSTED, "revoked": TrustLevel.DISTRUSTED,
    "undecided": TrustLevel.UNDECIDED, "new": TrustLevel.UNDECIDED
}


def exc_name(e: BaseException) -> str:
    if isinstance(e, Crash):
        return "Crash"
    if isinstance(e, Hang):
        return "!Hang"
    for c in type(e).__mro__:
        if c.__module__.split(".")[0] == "omemo" and c.__name__ in DOCUMENTED:
            return c.__name__
    if type(e) is ValueError:
        return "ValueError"
    return "!" + type(e).__name__


def tok(b: bytes) -> str:
    return "K" + b.hex()[:12]


def dv(d: int) -> str:
    return f"d{d}"


def lab(l: Optional[str]) -> str:
    return "~" if l is None else "L:" + l.encode("unicode_escape").decode("ascii").replace('"', "'")


def btok(b: Optional[bytes]) -> str:
    return "~" if b is None else "P:" + b.hex()


def rk(f: float) -> float:
    return f


class VirtualLoop(asyncio.SelectorEventLoop):
    """Event loop whose clock only moves when nothing is runnable; sleeping costs no real time."""

    def __init__(self) -> None:
        super().__init__()
        self.vtime = 0.0
        self._clock_resolution = 1e-3  # virtual times may be large
        orig = self._selector.select

        def select(timeout: Optional[float] = None) -> Any:
            if timeout is not None and timeout > 0:
                self.vtime += timeout
                return orig(0)
            if timeout is None:
                return orig(0.001)
            return orig(0)

        self._selector.select = select  # type: ignore

    def time(self) -> float:
        return self.vtime


CALL: "contextvars.ContextVar[int]" = contextvars.ContextVar("CALL", default=0)


class FaultStorage(Storage):
    def __init__(self, world: "World", disable_cache: bool) -> None:
        super().__init__(disable_cache)
        self._w = world

    async def _load(self, key: str) -> Maybe:  # type: ignore
        await self._w.pause()
        self._w.gate("load")
        d = self._w.data
        return Just(json.loads(d[key])) if key in d else Nothing()

    async def _store(self, key: str, value: Any) -> None:
        raw = json.dumps(value)
        await self._w.pause()
        self._w.gate("store")
        self._w.data[key] = raw
        self._w.gate_after("store")
        await self._w.pause()

    async def _delete(self, key: str) -> None:
        await self._w.pause()
        self._w.gate("delete")
        self._w.data.pop(key, None)
        self._w.gate_after("delete")
        await self._w.pause()


def msg_rec(m: Message) -> Dict[str, Any]:
    c = m.content
    assert isinstance(c, SymContent)
    keys = []
    for ekm, kex in m.keys:
        assert isinstance(ekm, SymEKM)
        row: List[Any] = [ekm.bare_jid, dv(ekm.device_id), ekm.sid, ekm.e, ekm.n, ekm.kid, not ekm.bad]
        if kex is None:
            row += [False, "~", "~", "~", "~"]
        else:
            assert isinstance(kex, SymKex)
            row += [True, tok(kex.identity_key), kex.sid, kex.pk, kex.spk]
        keys.append(row)
    return {
        "ns": m.namespace, "sj": m.bare_jid, "sd": dv(m.device_id), "empty": c.empty, "pt": btok(c.pt), "kid": c.kid,
        "pok": not c.bad, "keys": sorted(keys, key=repr)
    }


NO_MSG = {"ns": "~", "sj": "~", "sd": "~", "empty": True, "pt": "~", "kid": "~", "pok": True, "keys": []}


def info_rows(ds: Any) -> Dict[str, Any]:
    return {
        "dev": sorted([d.bare_jid, dv(d.device_id), tok(d.identity_key), d.trust_level_name, lab(d.label)] for d in ds),
        "ns": sorted([d.bare_jid, dv(d.device_id), n] for d in ds for n in d.namespaces),
        "act": sorted([d.bare_jid, dv(d.device_id), n, bool(a)] for d in ds for n, a in d.active)
    }


NO_INFO = {"dev": [], "ns": [], "act": []}


NO_STATE: Dict[str, Any] = {
    "id": "~", "ik": "~",
    "dev": [], "ns": [], "act": [], "lab": [], "pin": [], "has": [], "tr": [], "qj": [], "qd": [],
    "ses": [], "seen": [], "pkv": [], "_pk": [], "bd": [], "sl": [], "sb": [], "_sbp": []
}


class World:
    def __init__(self, own: str, cached: bool, idmin: Optional[int] = None, idmax: Optional[int] = None, seed: int = 0) -> None:
        self.own = own
        self.cached = cached
        self.data: Dict[str, str] = {}
        self.lists: Dict[Tuple[str, str], Dict[int, Optional[str]]] = {}
        self.bundles: Dict[Tuple[str, str, int], SymBundle] = {}
        self.ctr: Dict[str, int] = {}
        self.loop = VirtualLoop()
        self.mgr: Optional[omemo.SessionManager] = None
        self.idmin, self.idmax = idmin, idmax
        self.rng = random.Random(seed)
        self.eff: List[Dict[str, Any]] = []
        self.f: Dict[str, Any] = {}
        self.n = 0
        self.dead = False
        self.kinds: List[str] = []
        self.loaded: List[str] = []   # names given to the last create (driver bookkeeping for generation only)
        self.dec: Dict[str, Any] = {}
        self.on_tick: Any = None
        self.syncing = True
        self.sched: Optional[random.Random] = None   # set while calls overlap
        self.decs: Dict[int, Dict[str, Any]] = {}
        self.mid: Optional[Tuple[Any, int]] = None   # a state in the middle of the call, and the number of effects so far
        self.mid_rng: Optional[random.Random] = None
        self.mid_n = 0
        self._memo: Dict[Any, Any] = {}
        self._ik: Dict[str, bytes] = {}
        self.cls = self._make_class()

    # -- services for SymBackend --------------------------------------------------------------------------
    def fresh(self, prefix: str, *owner: str) -> str:
        """A new name; names of different owners do not depend on each other."""
        p = prefix + ".".join(owner)
        self.ctr[p] = self.ctr.get(p, 0) + 1
        return f"{p}-{self.ctr[p]:05d}"

    def now(self) -> float:
        return self.loop.time()

    def tick(self, what: str, ns: str) -> None:
        if self.on_tick is not None:
            self.on_tick(what, ns)

    async def pause(self) -> None:
        """Where overlapping calls may be switched."""
        if self.sched is not None:
            for _ in range(self.sched.choice([0, 0, 1, 1, 2, 3, 7])):
                await asyncio.sleep(0)

    # -- fault gates --------------------------------------------------------------------------------------
    def gate(self, kind: str) -> None:
        if self.dead:
            raise Crash()
        self.n += 1
        self.kinds.append(kind)
        if self.f.get("crash") == self.n:
            self.dead = True
            raise Crash()
        if self.f.get("sfail") == self.n and kind in ("load", "store", "delete"):
            raise AppStorageException()

    def gate_after(self, kind: str) -> None:
        if self.f.get("crash_after") == self.n:
            self.dead = True
            raise Crash()
        if self.mid_rng is not None and self.sched is None:
            # one of the states in which the process could have died, chosen uniformly
            self.mid_n += 1
            if self.mid_rng.random() * self.mid_n < 1:
                self.mid = (self.snap_or_bad(), len(self.eff))

    def e(self, k: str, ns: str, ok: bool, **kw: Any) -> None:
        r = {"k": k, "ns": ns, "ok": ok, "jid": "~", "dev": "~", "dig": "~", "rows": [], "id": "~", "msg": NO_MSG,
             "info": NO_INFO, "cnt": 0, "call": CALL.get()}
        r.update(kw)
        self.eff.append(r)

    # -- manager implementation ---------------------------------------------------------------------------
    def _make_class(w) -> Type[omemo.SessionManager]:  # noqa
        class Mgr(omemo.SessionManager):
            if w.idmin is not None:
                DEVICE_ID_MIN = w.idmin
            if w.idmax is not None:
                DEVICE_ID_MAX = w.idmax

            @staticmethod
            async def _upload_bundle(bundle: omemo.Bundle) -> None:
                await w.pause()
                w.gate("ub")
                assert isinstance(bundle, SymBundle)
                ok = bundle.namespace not in w.f.get("ub", [])
                w.e("ub", bundle.namespace, ok, jid=bundle.bare_jid, dev=dv(bundle.device_id), dig=bundle.digest,
                    cnt=len(bundle.pks))
                if not ok:
                    raise AppBundleUploadFailed()
                w.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle
                w.gate_after("ub")

            @staticmethod
            async def _download_bundle(namespace: str, bare_jid: str, device_id: int) -> omemo.Bundle:
                await w.pause()
                w.gate("dlb")
                kinds = {kind for ns, jid, dev, kind in w.f.get("dlb", [])
                         if (ns, jid, w.rdev(dev)) == (namespace, bare_jid, device_id)}
                if "fail" in kinds:
                    raise AppBundleDownloadFailed()
                if "nf" in kinds:
                    raise AppBundleNotFound()
                if "unk" in kinds:
                    raise AppUnknownNamespace()
                b = w.bundles.get((namespace, bare_jid, device_id))
                if b is None:
                    raise AppBundleNotFound()
                return copy.deepcopy(b)

            @staticmethod
            async def _delete_bundle(namespace: str, device_id: int) -> None:
                await w.pause()
                w.gate("db")
                ok = namespace not in w.f.get("db", [])
                w.e("db", namespace, ok, dev=dv(device_id), jid=w.own)
                if not ok:
                    raise AppBundleDeletionFailed()
                w.bundles.pop((namespace, w.own, device_id), None)
                w.gate_after("db")

            @staticmethod
            async def _upload_device_list(namespace: str, device_list: Dict[int, Optional[str]]) -> None:
                await w.pause()
                w.gate("ul")
                ok = namespace not in w.f.get("ul", [])
                w.e("ul", namespace, ok, jid=w.own, rows=sorted([dv(d), lab(l)] for d, l in device_list.items()))
                if not ok:
                    raise AppDeviceListUploadFailed()
                w.lists[(namespace, w.own)] = dict(device_list)
                w.gate_after("ul")

            @staticmethod
            async def _download_device_list(namespace: str, bare_jid: str) -> Dict[int, Optional[str]]:
                await w.pause()
                w.gate("dl")
                if [namespace, bare_jid] in [list(x) for x in w.f.get("dl", [])]:
                    raise AppDeviceListDownloadFailed()
                return dict(w.lists.get((namespace, bare_jid), {}))

            async def _evaluate_custom_trust_level(self, device: DeviceInformation) -> TrustLevel:
                if device.trust_level_name == "auto":
                    return TrustLevel.TRUSTED if device.bare_jid == w.own else TrustLevel.UNDECIDED
                if device.trust_level_name == "first":
                    return TrustLevel.TRUSTED if device.device_id == 1 else TrustLevel.DISTRUSTED
                try:
                    return LEVELS[device.trust_level_name]
                except KeyError as e:
                    raise AppUnknownTrustLevel() from e

            async def _make_trust_decision(self, undecided: FrozenSet[DeviceInformation],
                                           identifier: Optional[str]) -> None:
                await w.pause()
                w.gate("tq")
                dec = w.decs.get(CALL.get(), w.dec)
                w.e("tq", "~", not dec.get("fail", False), id=lab(identifier), info=info_rows(undecided))
                for jid, ik, level in dec.get("set", []):
                    await self.set_trust(jid, ik, level)
                if dec.get("all") is not None:
                    for d in undecided:
                        await self.set_trust(d.bare_jid, d.identity_key, dec["all"])
                if dec.get("fail", False):
                    raise AppTrustDecisionFailed()

            @staticmethod
            async def _send_message(message: Message, bare_jid: str) -> None:
                await w.pause()
                w.gate("send")
                ok = [message.namespace, bare_jid] not in [list(x) for x in w.f.get("send", [])]
                w.e("send", message.namespace, ok, jid=bare_jid, msg=msg_rec(message))
                if not ok:
                    raise AppMessageSendingFailed()
                w.gate_after("send")
        return Mgr

    # -- running ------------------------------------------------------------------------------------------
    def run(self, coro: Any, timeout: float = 20.0) -> Tuple[str, Any]:
        """Run one API call to completion; (outcome, result or exception)."""
        def on_alarm(*_: Any) -> None:
            raise Hang()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            r = self.loop.run_until_complete(coro)
            return "ok", r
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # pylint: disable=broad-except
            return exc_name(e), e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def cancel_tasks(self) -> None:
        self.dead = True
        for _ in range(5):
            ts = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
            if not ts:
                break
            for t in ts:
                t.cancel()
            try:
                self.loop.run_until_complete(asyncio.gather(*ts, return_exceptions=True))
            except BaseException:  # pylint: disable=broad-except
                pass
        self.dead = False

    def close(self) -> None:
        self.cancel_tasks()
        self.loop.close()

    # -- projection ---------------------------------------------------------------------------------------
    def own_id(self) -> Optional[int]:
        v = self.data.get("/own_device_id")
        return None if v is None else json.loads(v)

    def rdev(self, d: Any) -> int:
        """Resolve a device reference of a descriptor: an int, or "me"."""
        if d == "me":
            i = self.own_id()
            return -1 if i is None else i
        return d

    def own_ik(self) -> Optional[bytes]:
        if "/ikp/key" not in self.data or "/ikp/is_seed" not in self.data:
            return None
        raw = self.data["/ikp/key"] + self.data["/ikp/is_seed"]
        if raw not in self._ik:
            import xeddsa.bindings as xeddsa
            conv = xeddsa.seed_to_ed25519_pub if json.loads(self.data["/ikp/is_seed"]) else xeddsa.priv_to_ed25519_pub
            self._ik[raw] = conv(base64.urlsafe_b64decode(json.loads(self.data["/ikp/key"])))
        return self._ik[raw]

    def rows(self, k: str, raw: str) -> List[Tuple[str, List[Any]]]:
        """The rows contributed by one stored value."""
        v = json.loads(raw)
        p = k.split("/")
        out: List[Tuple[str, List[Any]]] = []
        if p[1] == "devices" and len(p) == 4 and p[3] == "list":
            out += [("dev", [p[2], dv(d)]) for d in v]
        elif p[1] == "devices" and len(p) == 5:
            d = "d" + p[3]
            if p[4] == "namespaces":
                out.append(("has", [p[2], d, "ns"]))
                out += [("ns", [p[2], d, n]) for n in sorted(set(v))]
            elif p[4] == "active":
                out.append(("has", [p[2], d, "act"]))
                out += [("act", [p[2], d, n, bool(a)]) for n, a in v.items()]
            elif p[4] == "label":
                out.append(("has", [p[2], d, "lab"]))
                out.append(("lab", [p[2], d, lab(v)]))
            elif p[4] == "identity_key":
                out.append(("pin", [p[2], d, tok(base64.urlsafe_b64decode(v))]))
        elif p[1] == "trust" and len(p) == 4:
            out.append(("tr", [p[2], tok(base64.urlsafe_b64decode(p[3])), v]))
        elif p[1] == "queue" and len(p) == 3:
            out += [("qj", [p[2], j]) for j in v]
        elif p[1] == "queue" and len(p) == 4:
            out += [("qd", [p[2], p[3], dv(d)]) for d in v]
        elif p[1] == "sym" and p[3] == "keys":
            ns = p[2]
            out.append(("pkv", [ns, len(v["v"])]))
            out += [("_pk", [ns, pk, "v"]) for pk in v["v"]] + [("_pk", [ns, pk, "h"]) for pk in v["h"]]
            out += [("_pk", [ns, v["spk"], "s"]), ("_pk", [ns, v["old"], "o"])]
            oid, oik = self.own_id(), self.own_ik()
            if oid is not None and oik is not None:
                out.append(("bd", [ns, SymBundle(ns, self.own, oid, oik, v["spk"], v["v"]).digest]))
        elif p[1] == "sym" and p[3] == "ses":
            ns, jid, d = p[2], p[4], "d" + p[5]
            out.append(("ses", [ns, jid, d, v["sid"], v["init"], v["conf"], tok(bytes.fromhex(v["pik"])),
                                tok(bytes.fromhex(v["kex"][0])), v["kex"][2], v["kex"][3],
                                v["ep"], v["sn"], v["re"], v["rn"]]))
            out += [("seen", [ns, jid, d, e, n]) for e, n in v["seen"]]
        return out

    def snap_or_bad(self) -> Dict[str, Any]:
        try:
            return self.snap()
        except Exception:  # pylint: disable=broad-except
            # unreadable persisted data: reported as a state no specification accepts
            return {**NO_STATE, "id": "!unreadable"}

    def snap(self) -> Dict[str, Any]:
        oid, oik = self.own_id(), self.own_ik()
        s: Dict[str, Any] = {k: list(v) if isinstance(v, list) else v for k, v in NO_STATE.items()}
        s["id"], s["ik"] = "~" if oid is None else dv(oid), "~" if oik is None else tok(oik)
        for k, raw in self.data.items():
            c = (k, raw, oid, oik)
            if c not in self._memo:
                self._memo[c] = self.rows(k, raw)
            for field, row in self._memo[c]:
                s[field].append(row)
        for (ns, jid), l in self.lists.items():
            s["sl"] += [[ns, jid, dv(d), lab(x)] for d, x in l.items()]
        for (ns, jid, d), b in self.bundles.items():
            s["sb"].append([ns, jid, dv(d), tok(b.identity_key), b.digest, bool(b.sig and b.pks),
                            min(b.pks) if b.pks else "~", b.spk])
            if jid == self.own and d == oid:
                s["_sbp"] += [[ns, pk] for pk in b.pks]
        return s


def finish(events: List[Dict[str, Any]], interesting: Set[str]) -> None:
    """Restrict the pre key rows to the ones some key exchange of the trace refers to."""
    for ev in events:
        for p in [ev["post"]] + [m["post"] for m in ev.get("mid", [])]:
            p["pki"] = [r for r in p.pop("_pk") if r[1] in interesting or r[2] in ("s", "o")]
            p["sbp"] = [r for r in p.pop("_sbp") if r[1] in interesting]


def patch_secrets(rng: random.Random) -> None:
    """Make the library's random choices reproducible from VERIF_SEED."""
    secrets.randbelow = lambda n: rng.randrange(n)  # type: ignore
    secrets.token_bytes = lambda n=32: bytes(rng.randrange(256) for _ in range(n))  # type: ignore
