"""
Executes operation descriptors (produced by TLC from the specification, by the seeded generators in gen.py, or by a
replay file) against the real library and records one trace: a list of events, each with the operation, its
arguments, its outcome, its externally visible effects in order and the projected state afterwards.
"""
import asyncio
import copy
import hashlib
import json
import random
from typing import Any, Dict, List, Optional, Set, Tuple

import omemo
from omemo.message import Message
from omemo.types import DeviceInformation

from sym import SymBackend, SymBundle, SymContent, SymEKM, SymKex
from world import (CALL, LEVELS, NO_INFO, NO_MSG, Crash, FaultStorage, World, btok, dv, exc_name, finish, info_rows, lab, msg_rec,
                   patch_secrets, tok)

NO_RES = {"info": NO_INFO, "own": "~", "scl": [], "unsucc": [], "msgs": [], "errs": [], "jids": [], "pt": "~",
          "kid": "~"}


def ik_of(jid: str, dev: Any, var: int) -> bytes:
    # variants >= 100 are shared between all devices
    if var >= 100:
        return hashlib.sha256(f"shared{var}".encode()).digest()
    return hashlib.sha256(f"{jid}|{dev}|{var}".encode()).digest()


# columns holding the account, per kind of row
ACCT = {"dev": 0, "ns": 0, "act": 0, "lab": 0, "pin": 0, "has": 0, "tr": 0, "qj": 1, "qd": 1, "ses": 1, "seen": 1}


class Captured(Exception):
    """Raised instead of running a call that is going to overlap with others."""


def limbs(n: Optional[int]) -> List[int]:
    """A number of any size, most significant part first (the integers of TLC have 32 bits)."""
    return [] if n is None else [n // 65536, n % 65536]


class Peer:
    """What an (honest or malicious) remote device knows: enough to compose any symbolic message."""

    def __init__(self) -> None:
        self.cur: Optional[Dict[str, Any]] = None
        self.log: List[Message] = []
        self.skipped: List[Message] = []
        self.inbox: List[Dict[str, Any]] = []     # key rows of messages of the client addressed to this device


class Runner:
    def __init__(self, cfg: Dict[str, Any]) -> None:
        self.cfg = cfg
        self.w = World(cfg["own"], cfg.get("cached", True), cfg.get("idmin"), cfg.get("idmax"),
                       cfg.get("seed", 0))
        patch_secrets(self.w.rng)
        if cfg.get("priv"):
            # an identity key pair that was migrated from elsewhere (private key instead of seed)
            import base64
            self.w.data["/ikp/is_seed"] = "false"
            self.w.data["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(
                hashlib.sha256(f"priv{cfg.get('seed', 0)}".encode()).digest()).decode("ASCII"))
        if cfg.get("mid"):
            self.w.mid_rng = random.Random(f"{cfg.get('seed', 0)}/mid")
        self.events: List[Dict[str, Any]] = []
        self.peers: Dict[Tuple[str, str, Any], Peer] = {}
        self.interesting: Set[str] = set()
        self.used_pk: Dict[str, List[str]] = {}
        self.reuse = True   # the application reuses collections it has passed or got
        self.all_ns = cfg["allns"]
        self.pending = False
        self.taint: Set[str] = set()
        self.last_kinds: List[str] = []
        self.view: Any = None     # the state to be logged while overlapping calls are logged one by one
        self.par = False

    # -- helpers ------------------------------------------------------------------------------------------
    def peer(self, ns: str, jid: str, dev: Any) -> Peer:
        return self.peers.setdefault((ns, jid, dev), Peer())

    def note(self, m: Dict[str, Any]) -> None:
        """Deliver the client's message to the inboxes of the peers."""
        for row in m["keys"]:
            self.peer(m["ns"], row[0], int(row[1][1:])).inbox.append({"row": row})
            if row[7]:
                self.interesting.add(row[10])

    def snap(self) -> Dict[str, Any]:
        if self.view is not None:
            return copy.deepcopy(self.view)
        try:
            return self.w.snap()
        except Exception:  # pylint: disable=broad-except
            # unreadable persisted data: reported as a state no specification accepts
            s = copy.deepcopy(self.events[-1]["post"])
            s["id"] = "!unreadable"
            return s

    def log(self, op: str, a: Dict[str, Any], x: str, r: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        res = dict(NO_RES)
        res.update(r)
        w = self.w
        self.events.append({
            "op": op, "a": a, "x": x, "r": res, "eff": self.w.eff, "post": self.snap(), "flt": faulted, "par": self.par,
            "arg0": args[0], "arg1": args[1],
            "mid": [] if w.mid is None or faulted or self.par or op in ("env", "init") else [{"post": w.mid[0], "n": w.mid[1]}]
        })
        w.mid = None
        for ef in self.w.eff:
            if ef["k"] == "send" and ef["ok"]:
                self.note(ef["msg"])
        self.w.eff = []

    def faults(self, f: Dict[str, Any]) -> Dict[str, Any]:
        w = self.w
        return {
            "dl": [list(x) for x in f.get("dl", [])], "ul": list(f.get("ul", [])), "ub": list(f.get("ub", [])),
            "db": list(f.get("db", [])), "send": [list(x) for x in f.get("send", [])],
            "dlb": [[n, j, dv(w.rdev(d)), k] for n, j, d, k in f.get("dlb", [])]
        }

    def bundle_faults(self, f: Dict[str, Any]) -> List[Any]:
        """Only bundles of backends that are not loaded may be unknown to the application."""
        return [[n, self.res_jid(j), d, "fail" if k == "unk" and n in self.w.loaded else k] for n, j, d, k in f.get("dlb", [])]

    def res_jid(self, j: str) -> str:
        return self.w.own if j == "own" else j

    # -- running one descriptor ---------------------------------------------------------------------------
    def step(self, d: Dict[str, Any]) -> None:
        op = d["op"]
        w = self.w
        if op == "env":
            self.env(d)
            return
        f = copy.deepcopy(d.get("f", {}))
        for kind in ("dl", "send"):
            f[kind] = [[n, self.res_jid(j)] for n, j in f.get(kind, [])]
        f["dlb"] = self.bundle_faults(f)
        w.f, w.n, w.kinds, w.dec, w.eff, w.mid, w.mid_n = f, 0, [], {}, [], None, 0
        faulted = any(k in f for k in ("crash", "crash_after", "sfail"))
        if op != "create" and w.mgr is None:
            return
        self.flush()
        w.eff = []
        a: Dict[str, Any] = {"f": self.faults(f)}
        args: List[Any] = ["", ""]
        getattr(self, "op_" + op)(d, a, faulted, args)
        self.last_kinds = w.kinds
        if w.dead or self.events[-1]["op"] == op and self.events[-1]["x"] in ("StorageException", "!Hang") and d.get("restart_after_sfail", True):
            # the process is gone (or has to be restarted): volatile state is lost
            w.cancel_tasks()
            w.mgr = None
        w.f = {}

    def env(self, d: Dict[str, Any]) -> None:
        w = self.w
        k = d["k"]
        jid = self.res_jid(d.get("jid", "own"))
        if k == "list":
            w.lists[(d["ns"], jid)] = {w.rdev(dev): l for dev, l in d["rows"] if w.rdev(dev) >= 0}
        elif k == "listdel":
            w.lists.get((d["ns"], jid), {}).pop(w.rdev(d["dev"]), None)
        elif k == "bundle":
            dev = w.rdev(d["dev"])
            how = d.get("how", "good")
            pks = [] if how == "nopk" else [w.fresh("q") for _ in range(2)]
            w.bundles[(d["ns"], jid, dev)] = SymBundle(d["ns"], jid, dev, self.ik_var(jid, d),
                                                       w.fresh("qs"), pks, how != "badsig")
        elif k == "nobundle":
            w.bundles.pop((d["ns"], jid, w.rdev(d["dev"])), None)
        elif k == "ownbundle":
            key = (d["ns"], w.own, w.rdev("me"))
            if d["how"] == "del":
                w.bundles.pop(key, None)
            elif key in w.bundles:
                b = w.bundles[key]
                if d["how"] == "stale":
                    w.bundles[key] = SymBundle(b.namespace, b.bare_jid, b.device_id, b.identity_key, b.spk,
                                               list(b.pks)[:-1] + ["zzz"])
                elif d["how"] == "spk":
                    w.bundles[key] = SymBundle(b.namespace, b.bare_jid, b.device_id, b.identity_key, "spkX", b.pks)
                else:
                    w.bundles[key] = SymBundle(b.namespace, b.bare_jid, b.device_id, ik_of("evil", 1, 0), b.spk, b.pks)
        elif k == "restart":
            w.cancel_tasks()
            w.mgr = None
        elif k == "nosession":
            # a session that got lost, e.g. because the application removed it
            key = f"/sym/{d['ns']}/ses/{jid}/{w.rdev(d['dev'])}"
            if w.mgr is not None:
                w.f, w.n, w.kinds = {}, 0, []
                w.run(self.storage.delete(key))
            else:
                w.data.pop(key, None)
        self.w.eff = []
        own = jid == w.own
        self.pending = True
        # published data that is no longer the library's own doing
        if own and (k in ("ownbundle", "list", "listdel")
                    or (k in ("bundle", "nobundle") and w.rdev(d["dev"]) == w.own_id())):
            self.taint.add(d["ns"])

    def flush(self) -> None:
        """Log the changes of the environment since the last operation as one event."""
        if self.pending:
            self.pending = False
            self.log("env", {"f": self.faults({}), "taint": sorted(self.taint)}, "ok", {}, False, ["", ""])
            self.taint = set()

    # -- API operations -----------------------------------------------------------------------------------
    def op_create(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        w.cancel_tasks()
        w.mgr = None
        storage = self.storage = FaultStorage(w, not w.cached)
        backends: List[omemo.Backend] = [SymBackend(w, ns, storage) for ns in d["ns"]]
        a.update({"ns": list(d["ns"]), "label": lab(d.get("label")), "thr": d.get("thr", 99), "und": d.get("und", "undecided"),
                  "own": w.own, "idmin": limbs(w.idmin), "idmax": limbs(w.idmax)})
        before = list(backends)
        coro = w.cls.create(backends, storage, w.own, d.get("label"), d.get("und", "undecided"),
                            d.get("period", 10 ** 9), d.get("thr", 99))
        x, r = w.run(coro)
        args[:] = ["~".join(b.namespace for b in before), "~".join(b.namespace for b in backends)]
        if backends != before:
            args[1] += "!"
        self.log("create", a, x, {"idn": limbs(w.own_id())}, faulted, args)
        # the application keeps using its list: must not affect the library
        if self.reuse:
            backends.clear()
        if x == "ok":
            w.mgr = r
            w.syncing = True
            w.loaded = list(d["ns"])
        else:
            w.cancel_tasks()
            w.mgr = None

    def op_par(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        """
        Calls about different contacts that overlap. They are logged as if they had happened one after the other: the
        state in between consists of the final rows of the contacts dealt with so far and the initial rows otherwise.
        """
        w = self.w
        run, f = w.run, w.f
        subs: List[Dict[str, Any]] = []
        calls: List[Any] = []

        def capture(coro: Any, timeout: float = 20.0) -> Any:
            calls.append(coro)
            raise Captured()

        def mine(s: Dict[str, Any]) -> Dict[str, Any]:
            g = copy.deepcopy(s.get("f", {}))
            for kind in ("dl", "send"):
                g[kind] = [[n, self.res_jid(j)] for n, j in g.get(kind, [])]
            g["dlb"] = self.bundle_faults(g)
            if not s.get("_shared"):
                g.update({"ub": [], "ul": []})   # nothing is published by such a call
            return g

        w.run = capture  # type: ignore
        try:
            shared = False
            for s in d["subs"]:
                if s["op"] == "decrypt":
                    s["_msg"] = self.compose(s)
                    if s["_msg"] is None:
                        continue
                    # at most one call that touches what all contacts share
                    if w.syncing or any(kex is not None for _, kex in s["_msg"].keys):
                        if shared:
                            continue
                        shared = s["_shared"] = True
                try:
                    getattr(self, "op_" + s["op"])(s, {"f": self.faults(mine(s))}, False, ["", ""])
                except Captured:
                    subs.append(s)
                    w.decs[len(subs)] = w.dec
        finally:
            w.run = run  # type: ignore
        results: List[Any] = [("!Hang", None) for _ in subs]

        async def one(i: int) -> None:
            CALL.set(i + 1)
            try:
                results[i] = ("ok", await calls[i])
            except Exception as e:  # pylint: disable=broad-except
                results[i] = (exc_name(e), e)

        async def together() -> None:
            await asyncio.gather(*(asyncio.ensure_future(one(i)) for i in range(len(calls))))

        w.f = {k: [x for s in subs for x in mine(s).get(k, [])] for k in ("dl", "dlb", "send", "ub", "ul")}
        w.sched = random.Random(d["sched"])
        before = self.events[-1]["post"]
        x, _ = w.run(together())
        if x != "ok":
            w.cancel_tasks()
            w.mgr = None
        w.sched, w.decs, w.f = None, {}, f
        eff, final = w.eff, self.snap()
        order = sorted(range(len(subs)), key=lambda i: bool(subs[i].get("_shared")))
        cur = copy.deepcopy(before)
        self.par = True
        try:
            for i in order:
                s = subs[i]
                jid = s["jids"][0] if s["op"] == "encrypt" else s["jid"]
                for field, col in ACCT.items():
                    cur[field] = [r for r in cur[field] if r[col] != jid] + [r for r in final[field] if r[col] == jid]
                self.view = cur if i != order[-1] else final
                w.eff = [e for e in eff if e["call"] == i + 1]
                w.run = lambda coro, timeout=20.0, i=i: (coro.close(), results[i])[1]  # type: ignore
                getattr(self, "op_" + s["op"])(s, {"f": self.faults(mine(s))}, False, ["", ""])
        finally:
            w.run = run  # type: ignore
            self.view, self.par, w.eff = None, False, []

    def simple(self, op: str, a: Dict[str, Any], coro: Any, faulted: bool, args: List[Any]) -> Tuple[str, Any]:
        x, r = self.w.run(coro)
        self.log(op, a, x, {}, faulted, args)
        return x, r

    def op_purge_backend(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["ns"] = d["ns"]
        self.simple("purge_backend", a, self.w.mgr.purge_backend(d["ns"]), faulted, args)

    def op_purge_jid(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["jid"] = self.res_jid(d["jid"])
        self.simple("purge_jid", a, self.w.mgr.purge_bare_jid(a["jid"]), faulted, args)

    def op_update(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        a["ns"], a["jid"] = d["ns"], self.res_jid(d["jid"])
        dl = {w.rdev(dev): l for dev, l in d["rows"]}
        a["rows"] = sorted([dv(k), lab(v)] for k, v in dl.items())
        snap = repr(list(dl.items()))
        x, r = w.run(w.mgr.update_device_list(d["ns"], a["jid"], dl))
        args[:] = [snap, repr(list(dl.items()))]
        if self.reuse:
            dl.clear()
            dl[4711] = "mutated"
        self.log("update", a, x, {}, faulted, [lab(args[0]), lab(args[1])])

    def op_refresh(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["ns"], a["jid"] = d["ns"], self.res_jid(d["jid"])
        self.simple("refresh", a, self.w.mgr.refresh_device_list(d["ns"], a["jid"]), faulted, args)

    def op_refresh_all(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["jid"] = self.res_jid(d["jid"])
        self.simple("refresh_all", a, self.w.mgr.refresh_device_lists(a["jid"]), faulted, args)

    def op_set_trust(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        ik = self.ik_ref(d)
        a["jid"], a["ik"], a["level"] = self.res_jid(d["jid"]), tok(ik), d["level"]
        self.simple("set_trust", a, self.w.mgr.set_trust(a["jid"], ik, d["level"]), faulted, args)

    def ik_ref(self, d: Dict[str, Any]) -> bytes:
        if d.get("dev") == "me":
            return self.w.own_ik() or b"\0" * 32
        return self.ik_var(self.res_jid(d["jid"]), d)

    def ik_var(self, jid: str, d: Dict[str, Any]) -> bytes:
        """The identity key a device presents: one of its own variants, or the one of this very device."""
        if d.get("ikv") == "me":
            return self.w.own_ik() or ik_of(jid, d["dev"], 0)
        return ik_of(jid, d["dev"], d.get("ikv", 0))

    def op_set_label(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["label"] = lab(d["label"])
        self.simple("set_label", a, self.w.mgr.set_own_label(d["label"]), faulted, args)

    def op_info(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        a["jid"] = self.res_jid(d["jid"])
        x, r = self.w.run(self.w.mgr.get_device_information(a["jid"]))
        self.log("info", a, x, {"info": info_rows(r)} if x == "ok" else {}, faulted, args)

    def op_own_info(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        x, r = self.w.run(self.w.mgr.get_own_device_information())
        res = {}
        if x == "ok":
            own, others = r
            res = {"info": info_rows(set(others) | {own}), "own": dv(own.device_id)}
            if own in others or any(o.device_id == own.device_id for o in others):
                res["own"] = "!listed twice"
        self.log("own_info", a, x, res, faulted, args)

    def dev_info(self, jid: str, dev: int, nss: List[str]) -> DeviceInformation:
        return DeviceInformation(frozenset(nss), frozenset((n, True) for n in nss), jid, dev, b"\1" * 32, "trusted", None)

    def op_scl(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        a["jid"], dev, a["nss"] = self.res_jid(d["jid"]), w.rdev(d["dev"]), d["nss"]
        a["dev"] = dv(dev)
        x, r = w.run(w.mgr.get_sending_chain_length(self.dev_info(a["jid"], dev, d["nss"])))
        res = {}
        if x == "ok":
            res = {"scl": sorted([n, -1 if v is None else v] for n, v in r.items())}
            if self.reuse:
                r.clear()
        self.log("scl", a, x, res, faulted, args)

    def op_before(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        self.w.mgr.before_history_sync()
        self.w.syncing = True
        self.log("before", a, "ok", {}, faulted, args)

    def op_after(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        self.w.syncing = False
        self.simple("after", a, self.w.mgr.after_history_sync(), faulted, args)

    def op_ensure(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        self.simple("ensure", a, self.w.mgr.ensure_data_consistency(), faulted, args)

    def op_replace(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        a["jid"], dev = self.res_jid(d["jid"]), w.rdev(d["dev"])
        a["dev"] = dv(dev)
        x, r = w.run(w.mgr.replace_sessions(self.dev_info(a["jid"], dev, d.get("nss", self.all_ns))))
        res = {}
        if x == "ok":
            res = {"unsucc": sorted([n, exc_name(e)] for n, e in r.items())}
            if self.reuse:
                r.clear()
        self.log("replace", a, x, res, faulted, args)

    def op_encrypt(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        dec = d.get("dec", {})
        w.dec = {"all": dec.get("all"), "fail": dec.get("fail", False),
                 "set": [(self.res_jid(r["jid"]), self.ik_ref(r), r["level"]) for r in dec.get("set", [])]}
        jids = [self.res_jid(j) for j in d["jids"]]
        pt = {n: b"" if n in d.get("ptnil", []) else bytes.fromhex(d.get("pt", "00")) + n.encode() for n in self.all_ns}
        prio = None if d.get("prio") is None else list(d["prio"])
        ident = d.get("ident")
        a.update({
            "jids": jids, "pt": sorted([n, btok(p)] for n, p in pt.items()), "hasprio": prio is not None,
            "prio": list(prio or []), "ident": lab(ident), "decall": w.dec["all"] or "~", "decfail": w.dec["fail"],
            "decset": [[j, tok(k), l] for j, k, l in w.dec["set"]]
        })
        fj = frozenset(jids)
        if d.get("jids_type") == "set":
            fj = set(jids)  # type: ignore
        before = repr((sorted(fj), sorted(pt.items()), prio))
        x, r = w.run(w.mgr.encrypt(fj, pt, prio, ident))
        args[:] = [lab(before), lab(repr((sorted(fj), sorted(pt.items()), prio)))]
        res: Dict[str, Any] = {}
        if x == "ok":
            msgs, errs = r
            mm = []
            for m, pkm in msgs.items():
                rec = msg_rec(m)
                rec["pkm"] = pkm.kid
                mm.append(rec)
            res = {"msgs": sorted(mm, key=lambda m: (m["ns"], m["kid"])),
                   "errs": sorted([e.namespace, e.bare_jid, dv(e.device_id), exc_name(e.exception)] for e in errs)}
            self.log("encrypt", a, x, res, faulted, args)
            for m in res["msgs"]:
                self.note(m)
            if self.reuse:
                msgs.clear()
        else:
            if x == "NoEligibleDevices":
                res = {"jids": sorted(r.bare_jids)}
            self.log("encrypt", a, x, res, faulted, args)
        if self.reuse:
            pt.clear()
            if prio is not None:
                prio.clear()

    # -- incoming messages --------------------------------------------------------------------------------
    def compose(self, d: Dict[str, Any]) -> Optional[Message]:
        w = self.w
        m = d["m"]
        ns, jid, dev = d["ns"], self.res_jid(d["jid"]), w.rdev(d["dev"])
        p = self.peer(ns, jid, dev)
        kind = m["kind"]
        kid = w.fresh("k")
        kex: Optional[SymKex] = None
        pos: Optional[Tuple[str, int, int]] = None
        if kind == "replay":
            if not p.log:
                return None
            return p.log[m.get("i", 0) % len(p.log)]
        if kind == "skipped":
            if not p.skipped:
                return None
            return p.skipped.pop(m.get("i", 0) % len(p.skipped))
        if kind == "new":
            pub = w.bundles.get((ns, w.own, w.rdev("me")))
            pks = sorted(pub.pks) if pub is not None else []
            sel = m.get("pk", 0)
            used = self.used_pk.get(ns, [])
            if sel == "used":
                pk = used[-1] if used else "pkbogus"
            elif sel == "bogus" or not pks:
                pk = "pkbogus"
            else:
                pk = pks[sel % len(pks)]
            spk = {"cur": pub.spk if pub is not None else "spkbogus", "bogus": "spkbogus"}[m.get("spk", "cur")]
            self.used_pk.setdefault(ns, []).append(pk)
            self.interesting.add(pk)
            kex = SymKex(self.ik_var(jid, {"dev": d["dev"], "ikv": m.get("ikv", 0)}), w.fresh("p"), pk, spk)
            p.cur = {"sid": kex.sid, "role": "A", "e": 1, "n": 0, "kex": kex, "unconf": True}
            p.skipped = []
        if kind == "reply":
            rows = [i["row"] for i in p.inbox]
            if not rows:
                return None
            row = rows[-1 - m.get("back", 0) % len(rows)]
            if p.cur is not None and p.cur["sid"] == row[2]:
                p.cur["e"], p.cur["n"], p.cur["unconf"] = row[3] + 1, 0, False
            else:
                role = "P" if row[3] % 2 == 1 else "A"
                p.cur = {"sid": row[2], "role": role, "e": row[3] + 1, "n": 0, "kex": None, "unconf": False}
            p.skipped = []
        if p.cur is None:
            if kind != "stray":
                return None
            pos = (w.fresh("x"), m.get("e", 1), 1)
        else:
            c = p.cur
            for _ in range(m.get("skip", 0)):
                c["n"] += 1
                if len(p.skipped) < 4:
                    p.skipped.append(self.message(ns, jid, dev, (c["sid"], c["e"], c["n"]), w.fresh("k"),
                                                  c["kex"] if c["unconf"] else None, {"pt": "51"}))
            c["n"] += 1
            if c["unconf"] and kex is None and not m.get("dropkex"):
                kex = c["kex"]
            if m.get("forcekex") and c["kex"] is not None:
                kex = c["kex"]
            if m.get("dropkex"):
                kex = None
            pos = (c["sid"], c["e"], c["n"])
        msg = self.message(ns, jid, dev, pos, kid, kex, m)
        p.log.append(msg)
        return msg

    def message(self, ns: str, jid: str, dev: int, pos: Tuple[str, int, int], kid: str, kex: Optional[SymKex],
                m: Dict[str, Any]) -> Message:
        w = self.w
        me = w.rdev("me")
        ckid = kid + "x" if m.get("kidmismatch") else kid
        content = SymContent(bool(m.get("empty")), ckid, b"" if m.get("empty") else bytes.fromhex(m.get("pt", "41")),
                             bool(m.get("badpayload")))
        keys: Set[Any] = set()
        to = m.get("to", "us")
        if to == "us":
            keys.add((SymEKM(w.own, me, pos[0], pos[1], pos[2], kid, bool(m.get("badekm"))), kex))
        if to == "wrongdev":
            keys.add((SymEKM(w.own, me + 1, pos[0], pos[1], pos[2], kid), kex))
        if to == "wrongjid":
            keys.add((SymEKM("other@x", me, pos[0], pos[1], pos[2], kid), kex))
        for i in range(m.get("others", 0)):
            keys.add((SymEKM(w.own, me + 2 + i, pos[0] + "o", 1, 1, kid + "o"), None))
            keys.add((SymEKM("other@x", me, pos[0] + "q", 1, 1, kid + "q"), None))
        return Message(m.get("nsx", ns), jid, dev, content, frozenset(keys))

    def op_decrypt(self, d: Dict[str, Any], a: Dict[str, Any], faulted: bool, args: List[Any]) -> None:
        w = self.w
        msg = d["_msg"] if "_msg" in d else self.compose(d)
        if msg is None:
            return
        a["msg"] = msg_rec(msg)
        for row in a["msg"]["keys"]:
            if row[7]:
                self.interesting.add(row[10])
        x, r = w.run(w.mgr.decrypt(msg))
        res = {}
        if x == "ok":
            pt, device, pkm = r
            res = {"pt": btok(pt), "info": info_rows([device]), "kid": pkm.kid}
        self.log("decrypt", a, x, res, faulted, args)

    # -----------------------------------------------------------------------------------------------------
    def run(self, descs: List[Dict[str, Any]], ident: str) -> Dict[str, Any]:
        try:
            self.log("init", {"f": self.faults({})}, "ok", {}, False, ["", ""])
            for d in descs:
                self.step(d)
            self.flush()
        finally:
            self.w.close()
        finish(self.events, self.interesting)
        return {"id": ident, "cfg": {"own": self.cfg["own"], "cached": self.cfg.get("cached", True)},
                "events": self.events}


NO_EVENT = {"op": "none", "x": "none", "r": dict(NO_RES), "eff": []}


def twin(cfg: Dict[str, Any], descs: List[Dict[str, Any]], ident: str, rnd: random.Random, how: str) -> Dict[str, Any]:
    """
    One history twice.  tw: with a library that keeps running (and a cached storage), and with a library that is loaded
    again between calls (with or without cache).  al: with an application that leaves alone what it has passed to the
    library or got from it, and with one that reuses it for something else.
    """
    runs: List[List[Any]] = []
    for second in (False, True):
        restarts = second and how == "tw"
        r = Runner({**cfg, "cached": rnd.random() < 0.5 if restarts else True})
        r.reuse = second and how == "al"
        w = r.w
        calls: List[Any] = []
        last: Optional[Dict[str, Any]] = None
        try:
            r.log("init", {"f": r.faults({})}, "ok", {}, False, ["", ""])
            for d in copy.deepcopy(descs):
                if d["op"] == "env":
                    r.step(d)
                    continue
                ins = []
                if restarts and w.mgr is not None and last is not None and d["op"] != "create" and not d.get("keep") and rnd.random() < 0.4:
                    sync = w.syncing
                    r.flush()
                    for extra in [{**last, "ns": list(w.loaded)}] + ([] if sync else [{"op": "after"}]):
                        n = len(r.events)
                        r.step(extra)
                        ins.append((r.events[n - 1], r.events[n]))
                        if w.mgr is None:
                            break
                r.flush()
                n = len(r.events)
                r.step(d)
                ev = r.events[n] if len(r.events) > n else None
                if ev is not None and ev["op"] == "create":
                    last = {k: d[k] for k in ("op", "label", "thr", "und")} if ev["x"] == "ok" else last
                    if ev["x"] == "ok":
                        # loading learns the identity keys of the own devices; do so in both executions
                        r.step({"op": "own_info"})
                if ev is not None and ev["op"] == "purge_backend" and ev["x"] == "ok":
                    w.loaded = [n for n in w.loaded if n != d["ns"]]
                calls.append((ev, r.events[-1]["post"], ins))
        finally:
            w.close()
        finish(r.events, r.interesting)
        runs.append(calls)
    events = []
    for (a, apost, _), (b, bpost, ins) in zip(*runs):
        if a is None and b is None and not ins:
            continue
        side = [{k: (e or NO_EVENT)[k] for k in ("op", "x", "r", "eff")} for e in (a, b)]
        side[0]["post"], side[1]["post"] = apost, bpost
        events.append({"a": side[0], "b": side[1],
                       "ins": [{"x": e["x"], "eff": e["eff"], "pre": p["post"], "post": e["post"]} for p, e in ins]})
    return {"id": ident, "k": how, "cfg": {"own": cfg["own"]}, "events": events}


def run_trace(cfg: Dict[str, Any], descs: List[Dict[str, Any]], ident: str) -> Dict[str, Any]:
    return Runner(cfg).run(copy.deepcopy(descs), ident)
