"""Runs the real signed pre key rotation loop on a virtual clock and records rotations and uploads."""
import asyncio
import hashlib
import json
import logging
import os
import random
import sys
from typing import Any, Dict, List

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)

from twisted.internet import main as tmain  # noqa: E402
from twisted.internet.testing import MemoryReactorClock  # noqa: E402

CLOCK = MemoryReactorClock()
tmain.installReactor(CLOCK)

from twisted.internet import defer  # noqa: E402

import omemo  # noqa: E402
from omemo.message import Message  # noqa: E402
from omemo.types import AsyncFramework  # noqa: E402

from sym import SymBackend, SymBundle, SymContent, SymEKM, SymKex  # noqa: E402
from world import AppBundleUploadFailed, FaultStorage, World, patch_secrets  # noqa: E402

START = 40000000


class Run:
    def __init__(self, c: Dict[str, Any], seed: str) -> None:
        self.c = c
        self.tw = c["fw"] == "twisted"
        self.w = World("me@x", True, seed=1)
        patch_secrets(random.Random(seed))
        self.rnd = random.Random(seed)
        self.ns = [f"n{i + 1}" for i in range(len(c["ages"]))]
        self.events: List[Dict[str, Any]] = []
        self.fails = {n: list(f) for n, f in zip(self.ns, c["fails"])}
        self.left: Dict[str, int] = {n: 0 for n in self.ns}
        self.attempts = 0
        self.calling = False
        run = self

        class Mgr(self.w.cls):  # type: ignore
            @staticmethod
            async def _upload_bundle(bundle: omemo.Bundle) -> None:
                await run.upload(bundle)

        self.cls = Mgr

    def now(self) -> float:
        return CLOCK.seconds() if self.tw else self.w.loop.time()

    def log(self, k: str, b: str, ok: bool = True, cur: bool = True) -> None:
        self.events.append({"k": k, "b": b, "at": int(self.now() + 0.5), "ok": ok, "cur": cur})

    async def upload(self, bundle: omemo.Bundle) -> None:
        assert isinstance(bundle, SymBundle)
        n = bundle.namespace
        k = self.w.data.get(f"/sym/{n}/keys")
        keys = json.loads(k) if k is not None else {"spk": "~", "v": []}
        cur = bundle.spk == keys["spk"] and sorted(bundle.pks) == sorted(keys["v"]) and bundle.device_id == self.w.own_id()
        if self.calling:
            # published by a call of the application, not by the loop
            self.log("kexub", n, True, cur)
            self.w.bundles[(n, bundle.bare_jid, bundle.device_id)] = bundle
            return
        ok = self.left[n] <= 0
        if not ok:
            self.left[n] -= 1
        self.log("ub", n, ok, cur)
        if not ok:
            self.attempts += 1
            raise AppBundleUploadFailed()
        self.w.bundles[(n, bundle.bare_jid, bundle.device_id)] = bundle

    def tick(self, what: str, n: str) -> None:
        if what == "rotate":
            self.left[n] = self.fails[n].pop(0) if self.fails[n] else 0
            self.log("rotate", n)

    def call(self, coro: Any) -> Any:
        if not self.tw:
            return self.w.loop.run_until_complete(coro)
        out: List[Any] = []
        d = defer.ensureDeferred(coro)
        d.addBoth(out.append)
        assert out, "call did not complete"
        if hasattr(out[0], "raiseException"):
            out[0].raiseException()
        return out[0]

    def kex(self, mgr: Any, n: str) -> None:
        """A message of another device arrives, whose key exchange uses up a pre key of the published bundle."""
        b = self.w.bundles[(n, self.w.own, self.w.own_id())]
        self.calling = True
        try:
            jid, dev, i = "a@x", self.rnd.choice([1, 2]), self.rnd.randrange(2 ** 30)
            ik = hashlib.sha256(f"{jid}{dev}".encode()).digest()
            self.w.bundles[(n, jid, dev)] = SymBundle(n, jid, dev, ik, "s", ["q"])
            self.w.lists[(n, jid)] = {1: None, 2: None}
            k = SymKex(ik, f"r{i}", self.rnd.choice(sorted(b.pks)), b.spk)
            m = Message(n, jid, dev, SymContent(True, f"k{i}", b""),
                        frozenset({(SymEKM(self.w.own, self.w.own_id(), k.sid, 1, 1, f"k{i}"), k)}))
            try:
                self.call(mgr.decrypt(m))
            except omemo.OMEMOException:
                # the published bundle may be outdated
                pass
        finally:
            self.calling = False

    def published(self, mgr: Any) -> bool:
        """Every loaded backend whose publication is not under way has its local bundle published."""
        last: Dict[str, bool] = {}
        gone = {e["b"] for e in self.events if e["k"] == "purge"}
        for e in self.events:
            if e["k"] in ("ub", "kexub"):
                last[e["b"]] = e["ok"] or e["k"] == "kexub"
        for n in self.ns:
            b = self.w.bundles.get((n, self.w.own, self.w.own_id()))
            k = json.loads(self.w.data.get(f"/sym/{n}/keys", "null"))
            if n not in gone and last.get(n, True) and not (b is not None and b.spk == k["spk"] and sorted(b.pks) == sorted(k["v"])):
                return False
        return True

    def run_until(self, target: float) -> None:
        if self.tw:
            while True:
                cs = sorted(c.getTime() for c in CLOCK.getDelayedCalls())
                if not cs or cs[0] > target:
                    break
                CLOCK.advance(max(0.0, cs[0] - CLOCK.seconds()))
            CLOCK.advance(max(0.0, target - CLOCK.seconds()))
        else:
            d = target - self.w.loop.time()
            if d > 0:
                self.w.loop.run_until_complete(asyncio.sleep(d))

    def run(self, ident: str) -> Dict[str, Any]:
        c, w, P = self.c, self.w, self.c["period"]
        asyncio.set_event_loop(w.loop)
        w.loop.vtime = float(START)
        if self.tw:
            for dc in list(CLOCK.getDelayedCalls()):
                dc.cancel()
            CLOCK.rightNow = float(START)
        w.now = self.now  # type: ignore
        fw = AsyncFramework.TWISTED if self.tw else AsyncFramework.ASYNCIO
        # a previous run
        st = FaultStorage(w, False)
        self.call(self.cls.create([SymBackend(w, n, st) for n in self.ns], st, w.own, None, "undecided", 10 ** 9, 99, AsyncFramework.ASYNCIO
                                  if not self.tw else fw))
        w.cancel_tasks()
        for dc in list(CLOCK.getDelayedCalls()):
            dc.cancel()
        ages = {}
        for n, (m, o) in zip(self.ns, c["ages"]):
            k = json.loads(w.data[f"/sym/{n}/keys"])
            ages[n] = max(0, m * P + o)
            k["t"] = START - ages[n]
            w.data[f"/sym/{n}/keys"] = json.dumps(k)
        self.events = []
        w.on_tick = self.tick
        st = FaultStorage(w, False)
        mgr = self.call(self.cls.create([SymBackend(w, n, st) for n in self.ns], st, w.own, None, "undecided", P, 99, fw))
        end = START + 5 * P + 7 * 3600
        t = float(START)
        victim = self.rnd.choice(self.ns)
        talk = self.rnd.choice([0, 0, 0.3, 0.6])
        if self.rnd.random() < 0.5:
            self.calling = True
            self.call(mgr.after_history_sync())
            self.calling = False
        want = {"no": None, "idle": 0, "retry1": 1, "retry3": 3}[c["purge"]]
        step = max(29.0, min(P / 13 + 1.5, 40000.0))
        while t < end:
            # step a little at a time to be able to interfere
            retrying = bool(self.events) and self.events[-1]["k"] == "ub" and not self.events[-1]["ok"]
            if want is not None and victim is not None and (
                    want == 0 and t > START + 0.4 * P or want > 0 and self.attempts >= want and retrying):
                if want > 0:
                    victim = self.events[-1]["b"] if self.rnd.random() < 0.8 else victim
                self.call(mgr.purge_backend(victim))
                # the removal happened when the call returned
                self.log("purge", victim)
                victim = None
            if self.rnd.random() < (talk if retrying else talk * 0.02):
                n = self.events[-1]["b"] if retrying else self.rnd.choice(self.ns)
                if not any(e["k"] == "purge" and e["b"] == n for e in self.events):
                    self.kex(mgr, n)
            t = min(end, t + (29.0 if retrying else step))
            self.run_until(t)
        self.log("end", "-", True, self.published(mgr))
        w.cancel_tasks()
        for dc in list(CLOCK.getDelayedCalls()):
            dc.cancel()
        w.loop.close()
        return {"id": ident, "period": P, "start": START, "ages": ages, "events": self.events}


def main() -> None:
    job = json.loads(sys.argv[1])
    stats: Dict[str, Any] = {"traces": 0, "ops": {}, "harness_errors": 0, "points": 0}
    with open(job["in"], encoding="ascii") as f, open(job["out"], "w", encoding="ascii") as out, \
            open(job["descs"], "w", encoding="ascii") as dfile:
        for i, line in enumerate(f):
            if i % job["of"] != job["part"]:
                continue
            c = json.loads(line)
            try:
                tr = Run(c, f"{job['seed']}/{i}").run(f"rot{i}")
            except Exception as e:  # pylint: disable=broad-except
                import traceback
                stats["harness_errors"] += 1
                stats["harness_error"] = traceback.format_exc()[-1500:]
                continue
            stats["traces"] += 1
            for ev in tr["events"]:
                k = ev["k"] + ("" if ev["ok"] else "/failed")
                stats["ops"][k] = stats["ops"].get(k, 0) + 1
            out.write(json.dumps(tr) + "\n")
            dfile.write(json.dumps({"id": tr["id"], "cfg": c, "descs": []}) + "\n")
    print(json.dumps(stats))


main()
