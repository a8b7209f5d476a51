"""Helpers of the demonstrations: one client of the real library in a scripted environment (world.py, sym.py)."""
import hashlib
import logging
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)

import omemo  # noqa: E402
from omemo.message import Message  # noqa: E402
from omemo.types import DeviceInformation  # noqa: E402
from sym import SymBackend, SymBundle, SymContent, SymEKM, SymKex  # noqa: E402
from world import FaultStorage, World, exc_name, msg_rec, patch_secrets  # noqa: E402

BOB, EVE, ME = "bob@x", "eve@x", "me@x"


def ik(name):
    return hashlib.sha256(str(name).encode()).digest()


def expect(cond, text):
    if not cond:
        print("VIOLATED:", text)
        sys.exit(1)


class Client:
    def __init__(self, cached=False, idmin=None, idmax=None, seed=0):
        self.w = World(ME, cached, idmin, idmax, seed)
        patch_secrets(self.w.rng)
        self.n = 0

    # -- loading
    def create(self, *ns, label="me", thr=99, und="undecided", period=10 ** 9, f=None):
        w = self.w
        w.cancel_tasks()
        w.f, w.n, w.kinds, w.eff, w.dec = dict(f or {}), 0, [], [], {}
        self.st = FaultStorage(w, not w.cached)
        self.backs = [SymBackend(w, n, self.st) for n in ns]
        x, r = w.run(w.cls.create(self.backs, self.st, ME, label, und, period, thr))
        w.f = {}
        if x == "ok":
            w.mgr = r
            self.own = w.own_id()
        else:
            w.cancel_tasks()
            w.mgr = None
        return x

    def call(self, name, *a, f=None, dec=None, **kw):
        w = self.w
        w.f, w.n, w.kinds, w.eff, w.dec = dict(f or {}), 0, [], [], dict(dec or {})
        x, r = w.run(getattr(w.mgr, name)(*a, **kw))
        w.f = {}
        if w.dead:
            w.cancel_tasks()
        return x, r

    def must(self, name, *a, **kw):
        x, r = self.call(name, *a, **kw)
        expect(x == "ok", f"{name} raised {x}")
        return r

    # -- the server
    def publish(self, ns, jid, dev, who=None, pks=("q1", "q2"), sig=True):
        self.w.bundles[(ns, jid, dev)] = SymBundle(ns, jid, dev, ik(who or f"{jid}{dev}"), f"s{jid}{dev}{ns}", pks, sig)

    def device(self, ns, jid, dev, label=None, trust="trusted", who=None):
        """A remote device: published, known to the client, trusted."""
        self.publish(ns, jid, dev, who)
        self.w.lists.setdefault((ns, jid), {})[dev] = label
        if self.w.mgr is not None:
            self.must("refresh_device_list", ns, jid)
            if trust is not None:
                self.must("set_trust", jid, ik(who or f"{jid}{dev}"), trust)

    def bundle(self, ns):
        return self.w.bundles.get((ns, ME, self.own))

    # -- messages
    def fresh(self):
        self.n += 1
        return f"x{self.n}"

    def message(self, ns, jid, dev, sid, e, n, kex=None, empty=False, pt=b"hi", bad=False, badkey=False, to=None):
        kid = self.fresh()
        tj, td = to or (ME, self.own)
        return Message(ns, jid, dev, SymContent(empty, kid, b"" if empty else pt, bad),
                       frozenset({(SymEKM(tj, td, sid, e, n, kid, badkey), kex)}))

    def kex(self, ns, jid, dev, who=None, pk=None, sid=None):
        b = self.bundle(ns)
        return SymKex(ik(who or f"{jid}{dev}"), sid or self.fresh(), pk or sorted(b.pks)[0], b.spk)

    def first(self, ns, jid, dev, kex=None, n=1, **kw):
        """The first message of a session initiated by the remote device."""
        k = kex or self.kex(ns, jid, dev)
        return self.message(ns, jid, dev, k.sid, 1, n, k, **kw)

    def session(self, ns, jid, dev):
        for r in self.w.snap()["ses"]:
            if r[:3] == [ns, jid, f"d{dev}"]:
                return {"sid": r[3], "init": r[4], "conf": r[5], "pik": r[6], "ep": r[10], "sn": r[11], "re": r[12], "rn": r[13]}
        return None

    def sends(self):
        return [e for e in self.w.eff if e["k"] == "send"]

    def encrypt(self, jids, nss=("A", "B"), **kw):
        return self.call("encrypt", frozenset(jids), {n: b"pt" + n.encode() for n in nss}, **kw)

    def close(self):
        self.w.close()


def rows(msgs):
    return sorted((m.namespace, k.bare_jid, k.device_id, x is not None) for m in msgs for k, x in m.keys)
