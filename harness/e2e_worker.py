"""Runs the histories generated by E2E.tla on real devices: the library with the real Twomemo and Oldmemo backends."""
import asyncio
import hashlib
import json
import logging
import os
import random
import sys
import traceback
from typing import Any, Dict, FrozenSet, List, Optional, Tuple

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)

import omemo  # noqa: E402
from omemo.storage import Just, Maybe, Nothing, Storage  # noqa: E402
from omemo.types import DeviceInformation, TrustLevel  # noqa: E402
import oldmemo  # noqa: E402
import oldmemo.oldmemo  # noqa: E402
import twomemo  # noqa: E402

from world import exc_name  # noqa: E402

ACCOUNT = {"a": "alice@x", "b": "bob@x", "c": "bob@x", "d": "alice@x"}


def forgiving(cls: Any) -> Any:
    """These backends fail to purge accounts they know nothing about, after having purged everything there is."""
    class Forgiving(cls):  # type: ignore[misc]
        async def purge_bare_jid(self, bare_jid: str) -> None:
            try:
                await super().purge_bare_jid(bare_jid)
            except KeyError:
                pass

    return Forgiving


BACKENDS = {"2": forgiving(twomemo.Twomemo), "o": forgiving(oldmemo.Oldmemo)}


def h(*bs: bytes) -> str:
    return "h" + hashlib.sha256(b"|".join(bs)).hexdigest()[:14]


class Mem(Storage):
    def __init__(self, data: Dict[str, str], nocache: bool) -> None:
        super().__init__(nocache)
        self.d = data

    async def _load(self, key: str) -> Maybe[Any]:
        return Just(json.loads(self.d[key])) if key in self.d else Nothing()

    async def _store(self, key: str, value: Any) -> None:
        self.d[key] = json.dumps(value)

    async def _delete(self, key: str) -> None:
        self.d.pop(key, None)


class Device:
    def __init__(self, net: "Net", name: str, order: str, nocache: bool) -> None:
        self.net, self.name, self.order, self.nocache = net, name, order, nocache
        self.jid = ACCOUNT[name]
        self.data: Dict[str, str] = {}
        self.mgr: Any = None
        self.dev = -1
        self.out: List[Tuple[omemo.Message, str]] = []
        me = self

        class Mgr(omemo.SessionManager):
            @staticmethod
            async def _upload_bundle(bundle: omemo.Bundle) -> None:
                net.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle

            @staticmethod
            async def _download_bundle(namespace: str, bare_jid: str, device_id: int) -> omemo.Bundle:
                try:
                    return net.serve(net.bundles[(namespace, bare_jid, device_id)])
                except KeyError as e:
                    raise omemo.BundleNotFound() from e

            @staticmethod
            async def _delete_bundle(namespace: str, device_id: int) -> None:
                net.bundles.pop((namespace, me.jid, device_id), None)

            @staticmethod
            async def _upload_device_list(namespace: str, device_list: Dict[int, Optional[str]]) -> None:
                net.lists[(namespace, me.jid)] = dict(device_list)

            @staticmethod
            async def _download_device_list(namespace: str, bare_jid: str) -> Dict[int, Optional[str]]:
                return dict(net.lists.get((namespace, bare_jid), {}))

            async def _evaluate_custom_trust_level(self, device: DeviceInformation) -> TrustLevel:
                return {"T": TrustLevel.TRUSTED, "U": TrustLevel.UNDECIDED}[device.trust_level_name]

            async def _make_trust_decision(self, undecided: FrozenSet[DeviceInformation], identifier: Optional[str]) -> None:
                for d in undecided:
                    await self.set_trust(d.bare_jid, d.identity_key, "T")

            @staticmethod
            async def _send_message(message: omemo.Message, bare_jid: str) -> None:
                me.out.append((message, bare_jid))

        self.cls = Mgr

    async def load(self) -> None:
        st = Mem(self.data, self.nocache)
        backends = [BACKENDS[c](st) for c in self.order]
        self.mgr = await self.cls.create(backends, st, self.jid, self.name, "U")
        own, _ = await self.mgr.get_own_device_information()
        if self.dev not in (-1, own.device_id):
            raise RuntimeError("device id changed")
        self.dev = own.device_id

    async def sessions(self) -> List[List[str]]:
        rows = []
        for o in self.net.devices.values():
            if o is self:
                continue
            for c in sorted(set(self.order) | set(o.order)):
                b = BACKENDS[c](Mem(self.data, True))
                s = await b.load_session(o.jid, o.dev)
                if s is not None:
                    rows.append([o.name, b.namespace, h(s.key_exchange.header.ephemeral_key)])
        return rows


class Net:
    def __init__(self, seed: str) -> None:
        self.rnd = random.Random(seed)
        self.few = self.rnd.random() < 0.4
        self.bundles: Dict[Any, omemo.Bundle] = {}
        self.lists: Dict[Any, Dict[int, Optional[str]]] = {}
        self.devices: Dict[str, Device] = {}
        self.box: Dict[Tuple[int, str], Tuple[omemo.Message, str]] = {}
        self.events: List[Dict[str, Any]] = []

    def published(self, ns: str, to: str, kex: Any) -> bool:
        """Whether a key exchange uses what the device publishes at this time."""
        d = self.devices.get(to)
        b: Any = self.bundles.get((ns, d.jid, d.dev)) if d else None
        return b is not None and kex.header.pre_key in b.bundle.pre_keys and kex.header.signed_pre_key == b.bundle.signed_pre_key

    def serve(self, bundle: Any) -> Any:
        """The pre keys are chosen randomly by the cryptographic libraries; with few of them collisions are likely."""
        if not self.few:
            return bundle
        inner = bundle.bundle._replace(pre_keys=frozenset(sorted(bundle.bundle.pre_keys)[:2]))
        return type(bundle)(bundle.bare_jid, bundle.device_id, inner, bundle.signed_pre_key_id, bundle.pre_key_ids)

    def who(self, jid: str, dev: int) -> str:
        for d in self.devices.values():
            if d.jid == jid and d.dev == dev:
                return d.name
        return "?"

    async def put(self, sender: Device, m: omemo.Message, pt: str, kid: str) -> List[Dict[str, Any]]:
        out = []
        ev = len(self.events) + 1
        for ekm, kex in m.keys:
            to = self.who(ekm.bare_jid, ekm.device_id)
            sid = "?"
            if kex is not None:
                sid = h(kex.header.ephemeral_key)
            else:
                b = [b for b in BACKENDS.values() if b(Mem({}, True)).namespace == m.namespace][0](Mem(sender.data, True))
                s = await b.load_session(ekm.bare_jid, ekm.device_id)
                if s is not None:
                    sid = h(s.key_exchange.header.ephemeral_key)
            self.box[(ev, to)] = (m, to)
            out.append({"m": str(ev), "to": to, "ns": m.namespace, "sid": sid, "kex": kex is not None,
                        "pk": h(kex.header.pre_key) if kex is not None else "-",
                        "pub": kex is not None and self.published(m.namespace, to, kex), "empty": m.content.empty, "pt": pt, "kid": kid})
        return out

    async def sent(self, d: Device) -> List[Dict[str, Any]]:
        rows = []
        for m, _ in d.out:
            rows += await self.put(d, m, "~", "empty")
        d.out = []
        return rows

    async def step(self, s: List[Any]) -> None:
        op, name = s[0], s[1]
        d = self.devices[name]
        e: Dict[str, Any] = {"op": op, "i": name, "m": "-", "x": "ok", "pt": "-", "kid": "-", "msgs": [], "cur": [], "gone": []}
        try:
            if op == "send":
                text = bytes(self.rnd.randrange(256) for _ in range(self.rnd.choice([0, 1, 5, 16, 100])))
                order = None
                if self.rnd.random() < 0.3:
                    order = [BACKENDS[c](Mem({}, True)).namespace for c in d.order]
                jids = frozenset({x.jid for x in self.devices.values() if x.jid != d.jid} or {d.jid})
                texts = {"urn:xmpp:omemo:2": b"2" + text, "eu.siacs.conversations.axolotl": b"o" + text}
                if not text:
                    texts["urn:xmpp:omemo:2"] = b""  # the other format cannot express an empty plaintext
                msgs, errs = await d.mgr.encrypt(jids, texts, order)
                if errs:
                    e["x"] = "!errors"
                for m, pkm in msgs.items():
                    e["msgs"] += await self.put(d, m, "P" + texts[m.namespace].hex(),
                                                h(pkm.key, pkm.auth_tag))
            elif op == "dlv":
                if (s[2], name) not in self.box:
                    return
                m, _ = self.box[(s[2], name)]
                e["m"] = str(s[2])
                pt, info, pkm = await d.mgr.decrypt(m)
                e["pt"] = "~" if pt is None else "P" + pt.hex()
                e["kid"] = "empty" if m.content.empty else h(pkm.key, pkm.auth_tag)
                if self.who(info.bare_jid, info.device_id) != self.who(m.bare_jid, m.device_id):
                    e["x"] = "!sender"
            elif op == "purge":
                jid = self.devices[s[2]].jid
                e["gone"] = [x.name for x in self.devices.values() if x.jid == jid]
                await d.mgr.purge_bare_jid(jid)
                await d.mgr.refresh_device_lists(jid)
            elif op == "restart":
                await d.load()
            elif op == "after":
                await d.mgr.after_history_sync()
            elif op == "before":
                d.mgr.before_history_sync()
        except Exception as ex:  # pylint: disable=broad-except
            e["x"] = exc_name(ex)
            if os.environ.get("E2E_DEBUG"):
                traceback.print_exc()
        e["msgs"] += await self.sent(d)
        e["cur"] = await d.sessions()
        self.events.append(e)

    async def run(self, sched: List[Any], names: List[str], orders: List[str], nocache: bool) -> None:
        for n, o in zip(names, orders):
            self.devices[n] = Device(self, n, o, nocache)
            await self.devices[n].load()
        for d in self.devices.values():
            for jid in sorted({x.jid for x in self.devices.values()}):
                await d.mgr.refresh_device_lists(jid)
            await d.mgr.after_history_sync()
        for s in sched:
            await self.step(s)
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()


def main() -> None:
    job = json.loads(sys.argv[1])
    stats: Dict[str, Any] = {"traces": 0, "ops": {}, "harness_errors": 0, "points": 0}
    with open(job["in"], encoding="ascii") as f, open(job["out"], "w", encoding="ascii") as out, \
            open(job["descs"], "w", encoding="ascii") as dfile:
        for i, line in enumerate(f):
            if i % job["of"] != job["part"]:
                continue
            sched = json.loads(line)["h"]
            net = Net(f"{job['seed']}/{i}")
            names = ["a", "b", "c"]
            r = net.rnd
            orders = r.choice([["2", "2", "2"], ["o", "o", "o"], ["2o", "2o", "2o"], ["2o", "2", "o"], ["2o", "o2", "2o"], ["o2", "o2", "o2"],
                               ["2o", "o", "2o"]])
            if orders == ["2o", "2", "o"]:
                names, orders = ["a", "b", "c"], ["2o", "2o", "o"]
            loop = asyncio.new_event_loop()
            try:
                loop.run_until_complete(asyncio.wait_for(net.run(sched, names, orders, r.random() < 0.3), 120))
            except Exception:  # pylint: disable=broad-except
                # the setup itself fails
                net.events.append({"op": "after", "i": "a", "m": "-", "x": "!setup", "pt": "-", "kid": "-", "msgs": [], "cur": [], "gone": []})
                stats["setup_error"] = traceback.format_exc()[-1500:]
            finally:
                loop.close()
            stats["traces"] += 1
            for ev in net.events:
                k = ev["op"] + "/" + ev["x"]
                stats["ops"][k] = stats["ops"].get(k, 0) + 1
            out.write(json.dumps({"id": f"e2e{i}", "devices": names, "events": net.events}) + "\n")
            dfile.write(json.dumps({"id": f"e2e{i}", "cfg": {"orders": orders}, "descs": sched}) + "\n")
    print(json.dumps(stats))


main()
