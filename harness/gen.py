"""
Seeded generation of operation histories ("descriptors", see driver.py).

A profile fixes the weights of the operations, how often network failures are injected and how the world is set up.
Nothing in here knows what the library is supposed to do: the oracle is the TLA+ specification.
"""
import random
from typing import Any, Dict, List, Optional

NS = ["n1", "n2", "n3"]
JIDS = ["a@x", "b@x"]
OWN = "me@x"
DEVS = {"a@x": [1, 2, 3], "b@x": [1, 2], "own": [7, 8], "c@x": [1]}
LABELS = [None, None, "", "phone", "lap top", "\u00fc\n\"x"]
LEVELS = ["trusted", "trusted", "verified", "blocked", "revoked", "undecided", "new", "auto", "first"]

BASE = {
    "create": 3, "restart": 2, "list": 6, "listdel": 1, "bundle": 6, "nobundle": 2, "ownbundle": 1, "update": 8,
    "refresh": 4, "refresh_all": 2, "set_trust": 6, "set_label": 1, "info": 3, "own_info": 1, "scl": 1, "before": 1,
    "after": 2, "ensure": 1, "replace": 3, "encrypt": 14, "decrypt": 22, "purge_backend": 1, "purge_jid": 1, "nosession": 0.5, "par": 0, "catchup": 0.7,
    "stale": 0.4, "repurge": 0.15, "double": 0.25, "broken": 0.4, "flood": 0, "regain": 0
}


class Gen:
    def __init__(self, seed: str, weights: Dict[str, float], opt: Dict[str, Any]) -> None:
        self.r = random.Random(seed)
        self.w = {**BASE, **weights}
        self.o = {"len": 20, "fault": 0.12, "sfault": 0.0, "unkns": 0.03, "unklevel": 0.02, "nns": 3, "live": 0.6,
                  "trustall": 0.5, "jids": JIDS, "badbundle": 0.15, "conflict": 0.08, "thr": [99, 99, 25, 60, 98],
                  "badthr": 0.0, "small_ids": False, "cached": None, "swap": 0.3, "ikvs": [1, 1, 2, 100], "priv": 0.1,
                  "low_ids": 0.25, "solid": 0.7, "sameik": 0.06}
        self.o.update(opt)
        self.devs = DEVS
        self.ns = NS[:self.o["nns"]]
        self.loaded: List[str] = []
        self.mixed = False
        self.only = False   # nothing about the own account
        # most devices are listed and have good bundles in a solid history, such that few calls fail early
        self.solid = self.r.random() < self.o["solid"]
        if self.solid:
            self.o["conflict"] *= 0.4
        self.out: List[Dict[str, Any]] = []
        self.again: Any = None
        # accounts whose devices all have the same identity key
        self.base = {j: 100 + i for i, j in enumerate(list(self.devs)) if self.r.random() < self.o["sameik"]}

    # -- pieces -------------------------------------------------------------------------------------------
    def p(self, x: float) -> bool:
        return self.r.random() < x

    def ns1(self) -> str:
        if self.loaded and not self.p(self.o["unkns"] * 3):
            return self.r.choice(self.loaded)
        return self.r.choice(self.ns)

    def jid(self, own: float = 0.2) -> str:
        return "own" if not self.only and self.p(own) else self.r.choice(self.o["jids"])

    def dev(self, jid: str, me: float = 0.1) -> Any:
        if jid == "own" and self.p(me):
            return "me"
        return self.r.choice(self.devs.get(jid, [1]))

    def rows(self, jid: str) -> List[Any]:
        devs = [d for d in self.devs.get(jid, [1]) if self.p(0.95 if self.solid else 0.65)]
        if jid == "own" and self.o.get("noown"):
            devs = []
        if jid == "own" and self.p(0.6):
            devs.append("me")
        if self.p(0.02 if self.solid else 0.05):
            devs = []
        self.r.shuffle(devs)
        return [[d, self.r.choice(LABELS)] for d in devs]

    def subset(self, xs: List[Any], p: float = 0.5) -> List[Any]:
        return [x for x in xs if self.p(p)]

    def faults(self, kinds: List[str], jids: List[str], p: Optional[float] = None) -> Dict[str, Any]:
        f: Dict[str, Any] = {}
        pp = self.o["fault"] if p is None else p
        for k in kinds:
            if not self.p(pp):
                continue
            if k in ("ul", "ub", "db"):
                f[k] = self.subset(self.ns, 0.6)
            elif k in ("dl", "send"):
                f[k] = [[n, j] for n in self.subset(self.ns, 0.7) for j in self.subset(jids + ["own"], 0.7)]
            elif k == "dlb":
                f[k] = [[n, j, d, self.r.choice(["fail", "fail", "nf", "unk"] if self.o.get("unk") else ["fail", "nf"])]
                        for n in self.subset(self.ns, 0.7) for j in jids + ["own"]
                        for d in self.devs.get(j, [1]) if self.p(0.5)]
        return f

    def ikv(self, j: str, p: float) -> int:
        return self.r.choice(self.o["ikvs"]) if self.p(p) else self.base.get(j, 0)

    def level(self) -> str:
        return "martian" if self.p(self.o["unklevel"]) else self.r.choice(LEVELS)

    # -- descriptors --------------------------------------------------------------------------------------
    def d_create(self) -> Dict[str, Any]:
        if self.loaded and not self.p(self.o["swap"]):
            ns = list(self.loaded)
        else:
            ns = self.subset(self.ns, 0.75) or [self.r.choice(self.ns)]
            if self.p(0.03):
                ns = []
        if self.p(0.5):
            self.r.shuffle(ns)
        d: Dict[str, Any] = {"op": "create", "ns": ns, "label": self.r.choice(LABELS), "thr": self.r.choice(self.o["thr"]),
                             "und": self.r.choice(["new", "new", "auto", "first"]) if self.p(0.15) else "undecided"}
        if self.p(self.o["badthr"]):
            d["thr"] = self.r.choice([24, 100, 0, -1, 25, 99])
        if self.p(self.o["badthr"] / 2) and ns:
            d["ns"] = ns + [ns[0]]
            return d
        f = self.faults(["dl", "ul", "ub", "db"], [], self.o.get("cfault"))
        if f:
            d["f"] = f
        self.loaded = ns
        return d

    def d_restart(self) -> List[Dict[str, Any]]:
        return [{"op": "env", "k": "restart"}, self.d_create()]

    def d_list(self) -> Dict[str, Any]:
        j = self.jid(self.o.get("ownlist", 0.1))
        return {"op": "env", "k": "list", "ns": self.ns1(), "jid": j, "rows": self.rows(j)}

    def d_listdel(self) -> Dict[str, Any]:
        return {"op": "env", "k": "listdel", "ns": self.ns1(), "jid": "own", "dev": "me"}

    def d_bundle(self) -> Dict[str, Any]:
        j = self.jid()
        dev = self.dev(j, 0)
        how = "good"
        if self.p(self.o["badbundle"] * (0.4 if self.solid else 1)):
            how = self.r.choice(["badsig", "nopk"])
        ikv: Any = self.ikv(j, self.o["conflict"])
        if self.p(0.06 if j == "own" else 0.01):
            ikv = "me"  # the identity key of this very device
        return {"op": "env", "k": "bundle", "ns": self.ns1(), "jid": j, "dev": dev, "how": how, "ikv": ikv}

    def d_nobundle(self) -> Dict[str, Any]:
        j = self.jid()
        return {"op": "env", "k": "nobundle", "ns": self.ns1(), "jid": j, "dev": self.dev(j, 0)}

    def d_nosession(self) -> Dict[str, Any]:
        j = self.jid()
        return {"op": "env", "k": "nosession", "ns": self.ns1(), "jid": j, "dev": self.dev(j, 0)}

    def d_ownbundle(self) -> Dict[str, Any]:
        return {"op": "env", "k": "ownbundle", "ns": self.ns1(), "how": self.r.choice(["del", "stale", "spk", "ik"])}

    def d_update(self) -> Dict[str, Any]:
        j = self.jid(self.o.get("ownlist", 0.25))
        n = self.r.choice(self.ns) if self.p(self.o["unkns"]) else self.ns1()
        return {"op": "update", "ns": n, "jid": j, "rows": self.rows(j), "f": self.faults(["ul"], [])}

    def d_refresh(self) -> Dict[str, Any]:
        j = self.jid(0.25)
        n = self.r.choice(self.ns) if self.p(self.o["unkns"]) else self.ns1()
        return {"op": "refresh", "ns": n, "jid": j, "f": self.faults(["ul", "dl"], [j])}

    def d_refresh_all(self) -> Dict[str, Any]:
        j = self.jid(0.25)
        return {"op": "refresh_all", "jid": j, "f": self.faults(["ul", "dl"], [j])}

    def d_set_trust(self) -> Dict[str, Any]:
        j = self.jid()
        ikv: Any = "me" if self.p(0.03) else self.ikv(j, self.o["conflict"] * 2)
        return {"op": "set_trust", "jid": j, "dev": self.dev(j), "ikv": ikv, "level": self.level()}

    def d_set_label(self) -> Dict[str, Any]:
        return {"op": "set_label", "label": self.r.choice(LABELS), "f": self.faults(["ul", "dl"], [])}

    def d_info(self) -> Dict[str, Any]:
        j = self.jid()
        return {"op": "info", "jid": j, "f": self.faults(["dlb"], [j] if j != "own" else [])}

    def d_own_info(self) -> Dict[str, Any]:
        return {"op": "own_info", "f": self.faults(["dlb"], [])}

    def d_scl(self) -> Dict[str, Any]:
        j = self.jid(0.1)
        return {"op": "scl", "jid": j, "dev": self.dev(j, 0), "nss": self.subset(self.ns, 0.8)}

    def d_before(self) -> Dict[str, Any]:
        return {"op": "before"}

    def d_after(self) -> Dict[str, Any]:
        return {"op": "after", "f": self.faults(["send"], self.o["jids"])}

    def d_ensure(self) -> Dict[str, Any]:
        f = self.faults(["ul", "dl", "ub"], [])
        if self.p(self.o["fault"]):
            f["dlb"] = [[n, "own", "me", self.r.choice(["fail", "nf"])] for n in self.subset(self.ns, 0.7)]
        return {"op": "ensure", "f": f}

    def d_replace(self) -> Dict[str, Any]:
        j = self.jid(0.1)
        return {"op": "replace", "jid": j, "dev": self.dev(j, 0), "f": self.faults(["dlb", "send"], [j] if j != "own" else [])}

    def d_encrypt(self) -> Dict[str, Any]:
        jids = self.subset(self.o["jids"], 0.7)
        if self.p(0.1):
            jids.append("own")
        if self.p(self.o.get("nobody", 0.03)):
            jids.append("c@x")
        if not jids and self.p(0.8):
            jids = [self.r.choice(self.o["jids"])]
        d: Dict[str, Any] = {"op": "encrypt", "jids": jids, "pt": self.r.choice(["", "00", "68656c6c6f", "ff00ff"])}
        if self.p(0.2):
            d["ptnil"] = self.subset(self.ns, 0.5)
        x = self.r.random()
        dec: Dict[str, Any] = {}
        if x < self.o["trustall"]:
            dec["all"] = self.r.choice(["trusted", "verified"])
        elif x < self.o["trustall"] + 0.12:
            dec["all"] = self.r.choice(["blocked", "undecided", "new", "revoked"])
        elif x < self.o["trustall"] + 0.14:
            dec["all"] = "martian"
        if self.p(0.25):
            dec["set"] = []
            for _ in range(self.r.randrange(1, 5)):
                j = self.jid(0.15)
                dec["set"].append({"jid": j, "dev": self.dev(j, 0), "ikv": self.ikv(j, max(0.1, self.o["conflict"])),
                                   "level": self.level()})
        if self.p(0.05):
            dec["fail"] = True
        d["dec"] = dec
        if self.p(0.4):
            prio = [n for n in (self.loaded or self.ns) if self.p(0.8)]
            self.r.shuffle(prio)
            if self.p(self.o["unkns"]):
                prio.append(self.r.choice(self.ns + ["nX"]))
            if self.p(0.05) and prio:
                prio.append(prio[0])
            d["prio"] = prio
        if self.p(0.5):
            d["ident"] = self.r.choice(["", "tab1", "x/y"])
        d["f"] = self.faults(["dlb"], jids)
        return d

    def d_decrypt(self) -> Dict[str, Any]:
        j = self.jid(0.15)
        dev = self.dev(j, 0)
        if self.p(self.o.get("strange", 0.04)):
            dev = self.r.choice([5, 9])
        n = self.ns1()
        if self.again is not None and self.again[0] in self.o["jids"] + ([] if self.only else ["own"]):
            j, n = self.again[0], self.again[1] or n
            dev = self.dev(j, 0)
        k = self.r.choices(["new", "next", "reply", "replay", "skipped", "stray"], self.o.get("mk", [30, 30, 25, 8, 10, 4]))[0]
        m: Dict[str, Any] = {"kind": k, "pt": self.r.choice(["", "41", "c3a9"])}
        if self.p(0.15):
            m["empty"] = True
        for flag, prob in (("badekm", 0.05), ("badpayload", 0.05), ("kidmismatch", 0.03), ("dropkex", 0.04), ("forcekex", 0.05)):
            if self.p(self.o.get(flag, prob)):
                m[flag] = True
        if self.p(0.06):
            m["to"] = self.r.choice(["wrongdev", "wrongjid", "nobody"])
        if self.p(0.3):
            m["others"] = 1
        if self.p(self.o.get("skip", 0.2)):
            m["skip"] = self.r.choice([1, 1, 2, 51, 52, 53, 54, 60, 105, 106, 107, 200] if self.p(0.5) else [1, 2])
        if self.p(self.o["unkns"]):
            m["nsx"] = self.r.choice(self.ns + ["nX"])
        if k == "new":
            m["pk"] = self.r.choice([0, 1, 5, "used", "used", "bogus"]) if self.p(self.o.get("pkreuse", 0.3)) else self.r.randrange(100)
            if self.p(0.03):
                m["spk"] = "bogus"
            m["ikv"] = self.ikv(j, self.o["conflict"])
        if k in ("replay", "skipped"):
            m["i"] = self.r.randrange(8)
        if k == "reply" and self.p(0.15):
            m["back"] = self.r.randrange(3)
        return {"op": "decrypt", "ns": n, "jid": j, "dev": dev, "m": m,
                "f": self.faults(["ub", "send", "dl", "dlb", "ul"], [j] if j != "own" else [])}

    def d_purge_backend(self) -> Dict[str, Any]:
        n = self.ns1()
        f = self.faults(["dl", "ul", "db"], [])
        if n in self.loaded and not f:
            self.loaded = [x for x in self.loaded if x != n]
        return {"op": "purge_backend", "ns": n, "f": f}

    def d_purge_jid(self) -> Dict[str, Any]:
        return {"op": "purge_jid", "jid": self.r.choice(self.o["jids"] + ["c@x"])}

    def d_catchup(self) -> List[Dict[str, Any]]:
        """First messages of several devices of an account during history synchronisation, then its end."""
        n, j = self.ns1(), self.jid(0.1)
        out: List[Dict[str, Any]] = [{"op": "before"}] if self.p(0.5) else []
        devs = [d for d in self.devs[j] + ([5, 9] if self.p(0.1) else []) if self.p(0.8)]
        more = self.p(0.3)
        for k in ([n] + [x for x in self.loaded if x != n] if more else [n]):
            for d in devs:
                out.append(self.first(k, j, d))
        for d in devs:
            if self.p(0.25):
                out.append({"op": "env", "k": "nosession", "ns": n, "jid": j, "dev": d})
        if self.p(0.3):
            out.append(self.d_refresh())
        if self.p(0.3):
            out.append({"op": "env", "k": "restart"})
            c = self.d_create()
            c.pop("f", None)
            out.append(c)
        out.append(self.d_after())
        if self.p(0.5 if more else 0.2):
            out[-1]["f"] = {"send": [[n, j]]}
            if self.p(0.5):
                # the end of the synchronization is repeated
                out.append({"op": "after"})
        return out

    def first(self, n: str, j: str, d: Any) -> Dict[str, Any]:
        """The first message of a session initiated by a remote device."""
        return {"op": "decrypt", "ns": n, "jid": j, "dev": d, "f": {},
                "m": {"kind": "new", "pk": self.r.randrange(100), "pt": "41", "ikv": self.base.get(j, 0)}}

    def established(self, n: str, j: str, d: Any) -> List[Dict[str, Any]]:
        """Usually a new session, usually with an answer to the first message of the client, which ends the key exchange."""
        out: List[Dict[str, Any]] = [self.first(n, j, d)] if self.p(0.8) else []
        if self.p(0.2):
            out.append({"op": "after"})
        if self.p(0.7):
            out.append({"op": "decrypt", "ns": n, "jid": j, "dev": d, "m": {"kind": "reply", "pt": "41"}, "f": {}})
        return out

    def d_stale(self) -> List[Dict[str, Any]]:
        """A receiving chain that grows past the point at which it is considered stale, with and without failing replies."""
        n, j = self.ns1(), self.jid(0.1)
        dev = self.dev(j, 0)
        out: List[Dict[str, Any]] = self.established(n, j, dev)
        for _ in range(self.r.choice([1, 2, 2, 3])):
            m: Dict[str, Any] = {"kind": "next", "pt": "41", "skip": self.r.choice([0, 0, 1, 20, 49, 50, 51, 52, 53, 54, 60, 106])}
            if self.p(0.3):
                m["empty"] = True
            out.append({"op": "decrypt", "ns": n, "jid": j, "dev": dev, "m": m, "f": {"send": [[n, j]]} if self.p(0.25) else {}})
        return out

    def d_broken(self) -> List[Dict[str, Any]]:
        """Undecryptable messages between good ones of the same session."""
        n, j = self.ns1(), self.jid(0.1)
        dev = self.dev(j, 0)
        out: List[Dict[str, Any]] = self.established(n, j, dev)
        ms: List[Dict[str, Any]] = []
        for bad in [False] * self.r.choice([0, 1]) + [True] * self.r.choice([1, 1, 2]) + [False] * self.r.choice([1, 2]):
            ms.append({"kind": self.r.choice(["next", "next", "next", "reply"]), "pt": "41"})
            if self.p(0.2):
                ms[-1]["skip"] = 1
            if bad:
                ms[-1][self.r.choice(["badpayload", "badpayload", "kidmismatch", "badekm"])] = True
        if self.p(0.4):
            ms.append({"kind": self.r.choice(["replay", "skipped"]), "i": self.r.randrange(8)})
        return out + [{"op": "decrypt", "ns": n, "jid": j, "dev": dev, "m": m, "f": {}} for m in ms]

    def d_regain(self) -> List[Dict[str, Any]]:
        """This device disappears from a list, which is noticed (and repaired) before anything else happens."""
        rows = [r for r in self.rows("own") if r[0] != "me"]
        out: List[Dict[str, Any]] = [{"op": "update", "ns": self.ns1(), "jid": "own", "rows": rows, "f": {}},
                                     {"op": "own_info", "keep": True, "f": {}}]
        if self.p(0.5):
            out.insert(0, {"op": "set_label", "label": self.r.choice(LABELS), "f": {}})
        return out

    def d_flood(self) -> List[Dict[str, Any]]:
        """So many new sessions that most of the offered pre keys are used up."""
        n = self.ns1()
        out: List[Dict[str, Any]] = [{"op": "before"}] if self.p(0.5) else []
        for _ in range(self.r.choice([55, 65, 80])):
            j = self.r.choice(self.o["jids"])
            out.append(self.first(n, j, self.dev(j, 0)))
        out.append(self.d_after())
        return out

    def d_double(self) -> List[Dict[str, Any]]:
        """A device that presents the identity key of this very device, or of another device of its account."""
        j = self.jid(0.7)
        new = self.r.choice([5, 9])
        ikv: Any = "me" if self.p(0.7) else 100
        rows = [r for r in self.rows(j) if r[0] != new] + [[new, None]]
        out: List[Dict[str, Any]] = []
        for n in list(self.loaded) or list(self.ns):
            out.append({"op": "env", "k": "bundle", "ns": n, "jid": j, "dev": new, "how": "good", "ikv": ikv})
            out.append({"op": "env", "k": "list", "ns": n, "jid": j, "rows": rows})
        out.append({"op": "refresh_all", "jid": j})
        for _ in range(self.r.choice([1, 2, 3])):
            y = self.r.random()
            if y < 0.4:
                out.append({"op": "own_info"} if j == "own" else {"op": "info", "jid": j})
            elif y < 0.6:
                out.append({"op": "set_trust", "jid": j, "dev": new, "ikv": ikv, "level": self.level()})
            elif y < 0.8 and self.w["encrypt"] > 0:
                out.append(self.d_encrypt())
            elif self.w["decrypt"] > 0:
                m = self.first(self.ns1(), j, new)
                m["m"]["ikv"] = ikv
                out.append(m)
        return out

    def d_repurge(self) -> List[Dict[str, Any]]:
        """An account purged while a backend is not loaded, and purged again after that backend was loaded again."""
        j = self.r.choice(self.o["jids"])
        all_ns = list(self.loaded) or list(self.ns)
        out: List[Dict[str, Any]] = [self.first(n, j, d) for n in all_ns for d in self.devs[j] if self.p(0.6)]
        some = self.subset(all_ns, 0.5)
        for ns, what in ((some, 0.9), (all_ns, 0.8)):
            out.append({"op": "env", "k": "restart"})
            self.loaded = list(ns)
            c = self.d_create()
            c.pop("f", None)
            c["ns"] = self.loaded = list(ns)
            out.append(c)
            if self.p(what):
                out.append({"op": "purge_jid", "jid": j})
            if self.p(0.3):
                out.append({"op": "refresh_all", "jid": j})
        return out

    def d_par(self) -> Dict[str, Any]:
        """Overlapping calls about different contacts."""
        subs = []
        js = list(self.o["jids"])
        self.r.shuffle(js)
        for j in js[:self.r.choice([2, 2, 3])]:
            k = self.r.choices(["encrypt", "decrypt", "update", "refresh", "refresh_all", "info", "set_trust", "replace"],
                               [30, 40, 12, 8, 5, 5, 8, 6])[0]
            jids, self.o["jids"] = self.o["jids"], [j]
            self.only = True
            try:
                s = getattr(self, "d_" + k)()
                if k == "encrypt":
                    s["jids"] = [j]
                # the failures of a call concern its contact only
                s["f"] = {q: [x for x in rows if q in ("ub", "ul") or x[1] == j] for q, rows in s.get("f", {}).items()}
                subs.append(s)
            finally:
                self.o["jids"], self.only = jids, False
        return {"op": "par", "subs": subs, "sched": self.r.randrange(2 ** 30)}

    def aftermath(self, x: Dict[str, Any]) -> List[Dict[str, Any]]:
        """What a user does after a call may have failed: messages of the same account, the same call once more."""
        fault, self.o["fault"] = self.o["fault"], 0.0
        js = [r[1] for q, rows in x["f"].items() if q in ("dl", "send", "dlb") for r in rows]
        self.again = (x.get("jid") or (self.r.choice(js) if js else "own"), x.get("ns"))
        out: List[Dict[str, Any]] = []
        try:
            for _ in range(self.r.choice([1, 1, 2, 3])):
                y = self.r.random()
                if y < 0.5 and self.w["decrypt"] > 0:
                    out.append(self.d_decrypt())
                elif y < 0.65 and self.w["encrypt"] > 0:
                    out.append(self.d_encrypt())
                elif y < 0.9 and x["op"] != "par":
                    z = {k: v for k, v in x.items() if k != "f"}
                    if "rows" in z and self.p(0.5):
                        z["rows"] = self.rows(z["jid"])
                    out.append(z)
                elif self.w["info"] > 0:
                    out.append(self.d_info())
        finally:
            self.o["fault"], self.again = fault, None
        return out

    # -- a whole history ----------------------------------------------------------------------------------
    def setup(self) -> None:
        o = self.out
        # the first load meets different own device lists, and failures
        mixed = self.o["small_ids"] and self.p(0.6)
        pool = self.r.sample(range(1, 6), 4)  # (one id is left)
        self.mixed = mixed
        for n in self.ns:
            for j in list(self.o["jids"]) + ["own"]:
                if self.p(0.97 if self.solid else 0.8):
                    rows = [r for r in self.rows(j) if r[0] != "me"]
                    if mixed and j == "own":
                        rows = [[i, None] for i in self.subset(pool)]
                    o.append({"op": "env", "k": "list", "ns": n, "jid": j, "rows": rows})
                for dd in self.devs[j]:
                    if self.p(0.97 if self.solid else 0.85):
                        b = self.d_bundle()
                        b.update({"ns": n, "jid": j, "dev": dd})
                        o.append(b)
        c = self.d_create()
        if mixed and self.p(0.6):
            c["f"] = {self.r.choice(["dl", "dl", "dl", "ul", "ub"]): [self.r.choice(c["ns"][1:] or self.ns)]}
            if "dl" in c["f"]:
                c["f"]["dl"] = [[c["f"]["dl"][0], "own"]]
            o.append(dict(c))
        c.pop("f", None)
        o.append(c)
        for j in list(self.o["jids"]) + ["own"]:
            if self.p(0.95 if self.solid else 0.8):
                o.append({"op": "refresh_all", "jid": j})
        if self.p(self.o["live"]):
            o.append({"op": "after"})

    def history(self) -> List[Dict[str, Any]]:
        if self.o.get("setup", True):
            self.setup()
        ops = [k for k, v in self.w.items() if v > 0]
        ws = [self.w[k] for k in ops]
        stop = len(self.out) + self.o["len"]
        if self.o.get("idle"):
            self.only = True
        while len(self.out) < stop:
            k = self.r.choices(ops, ws)[0]
            d = getattr(self, "d_" + k)()
            ds = d if isinstance(d, list) else [d]
            for x in ds:
                if x["op"] != "env" and self.p(self.o["sfault"]):
                    x.setdefault("f", {})[self.r.choice(["crash", "crash_after", "sfail"])] = self.r.randrange(1, 14)
                    if x["op"] not in ("create", "after", "purge_backend") and self.p(0.4):
                        x["restart_after_sfail"] = False
                self.out.append(x)
                if x["op"] not in ("env", "create", "restart") and any(
                        x.get("f", {}).get(q) for q in ("ul", "dl", "ub", "db", "send", "dlb")) and self.p(0.35):
                    more = self.aftermath(x)
                else:
                    more = []
                if any(q in x.get("f", {}) for q in ("crash", "crash_after", "sfail")):
                    c = self.d_create()
                    if not x.get("restart_after_sfail", True):
                        continue
                    self.out.append(c)
                    if x["op"] not in ("env", "create", "restart") and self.p(0.3):
                        self.out += self.aftermath(x)
                else:
                    self.out += more
        return self.out

    def cfg(self) -> Dict[str, Any]:
        c = {"own": OWN, "allns": self.ns + ["nX"], "seed": self.r.randrange(2 ** 30),
             "cached": self.p(0.5) if self.o["cached"] is None else self.o["cached"]}
        if self.mixed:
            c["idmin"], c["idmax"] = 1, 6
        elif self.o["small_ids"]:
            c["idmin"] = self.r.choice([1, 5, 6])
            c["idmax"] = c["idmin"] + self.r.choice([4, 5, 6])
        elif self.p(self.o["low_ids"]):
            # ids that other accounts' devices use as well
            c["idmin"], c["idmax"] = 1, 6
        if self.p(self.o["priv"]):
            c["priv"] = True
        return c


# names that are easily confused with each other, with the own account or with parts of storage keys
NAMES: List[Dict[str, str]] = [
    {"a@x": "me@x2", "b@x": "me@x23", "c@x": "e@x", "n1": "urn:xmpp:omemo:1", "n2": "urn:xmpp:omemo:12", "n3": "urn:xmpp:omemo"},
    {"a@x": "Me@x", "b@x": "ME@X", "c@x": "me@X", "n1": "eu.siacs.conversations.axolotl", "n2": "EU.siacs.conversations.axolotl", "n3": "x"},
    {"a@x": "\u00e9@x", "b@x": "e\u0301@x", "c@x": "\U0001f600", "n1": "\u00e9", "n2": "e\u0301", "n3": "\u1e9e"},
    {"a@x": "list", "b@x": "active", "c@x": "1", "n1": "list", "n2": "queue", "n3": "1"}
]


def renamed(x: Any, m: Dict[str, str]) -> Any:
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, list):
        return [renamed(y, m) for y in x]
    if isinstance(x, dict):
        return {renamed(k, m): renamed(y, m) for k, y in x.items()}
    return x


def make(seed: str, weights: Dict[str, float], opt: Dict[str, Any]) -> Any:
    g = Gen(seed, weights, opt)
    other = random.Random(seed + "/names")
    if not g.o["small_ids"] and other.random() < 0.3:
        a, b, c = other.choice([(1, 11, 111), (12, 1, 2), (2147483647, 21474836, 3)])
        g.devs = {"a@x": [a, b, c], "b@x": [a, b], "own": [c, 4], "c@x": [a]}
    h = g.history()
    cfg = g.cfg()
    if other.random() < 0.35:
        m = other.choice(NAMES)
        cfg, h = renamed(cfg, m), renamed(h, m)
    return cfg, h
