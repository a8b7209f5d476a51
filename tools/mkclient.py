"""Writes the configurations of ClientMC.tla (run by hand after editing)."""
import os
SPEC = os.path.join(os.path.dirname(__file__), "..", "spec")
D = dict(ns=1, accts=["a@x"], pdevs=["d1"], odevs=[], f=[], levels=["trusted"], dec=["trusted"], labels=["~"], kinds=["new"], flags=[],
         thr=[99], ik=[0], start="ready", steps=3, inv=["Inv", "Merge", "Dead", "Confirmed", "Owed", "Beyond", "Stocked"])


def st(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


def cfg(name, ops, **kw):
    d = {**D, **kw}
    rec = d.get("rec", False)
    inv = "" if rec else "INVARIANTS " + " ".join(d["inv"]) + "\n"
    with open(os.path.join(SPEC, f"{name}.cfg"), "w") as f:
        f.write(f"""SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns{d['ns']}
  Own = "me@x"
  Accts = {st(d['accts'])}
  PDevs = {st(d['pdevs'])}
  ODevs = {st(d['odevs'])}
  Ops <- c_{ops}
  FKinds = {st(d['f'])}
  Levels = {st(d['levels'])}
  DecAll = {st(d['dec'])}
  LabelSet = {st(d['labels'])}
  Kinds = {st(d['kinds'])}
  Flags = {st(d['flags'])}
  Thr = {st(d['thr'])}
  IkVars = {st(d['ik'])}
  Start = "{d['start']}"
  MaxSteps = {d['steps']}
  Record = {"TRUE" if rec else "FALSE"}
  Isolation = {"TRUE" if d.get("iso") else "FALSE"}
{inv}CHECK_DEADLOCK FALSE
""")


def both(name, ops, big, **kw):
    cfg("MC" + name, ops, **kw)
    cfg("MC" + name + "Big", ops, **{**kw, **big})


both("Lists", "lists", dict(steps=3, odevs=["d7"], accts=["a@x", "b@x"]), ns=2, pdevs=["d1", "d2"], odevs=[], labels=["~", "L:p"], steps=3)
both("Own", "own", dict(steps=4), ns=2, pdevs=["d1"], odevs=["d7"], labels=["~", "L:p"], f=["ul", "ub", "dl"], steps=3)
both("Trust", "trust", dict(steps=4, ns=2), ns=1, pdevs=["d1", "d2"], odevs=["d7"], levels=["trusted", "blocked", "undecided", "martian"],
     dec=["~", "trusted", "blocked", "undecided", "martian"], ik=[0, 1], steps=3)
both("Addr", "addr", dict(steps=3, pdevs=["d1", "d2"]), ns=2, accts=["a@x", "b@x"], pdevs=["d1"], odevs=["d7"], f=["dlb"], steps=3)
both("Pins", "pins", dict(steps=4, ns=2), ns=2, pdevs=["d1"], ik=[0, 1], kinds=["new", "reply"], start="live", steps=3)
both("Sess", "sess", dict(steps=6), ns=1, kinds=["new", "next", "reply", "replay"], flags=["badekm", "badpayload"], start="live", steps=4)
both("Stale", "sess", dict(steps=6), ns=1, kinds=["new", "stale", "reply"], flags=[], f=["send", "ub"], start="live", steps=4)
both("Sync", "sync", dict(steps=5), ns=1, pdevs=["d1", "d2"], kinds=["new", "stale"], f=["send"], start="ready", steps=4)
both("Load", "load", dict(steps=4), ns=2, odevs=["d7"], f=["dl", "ul", "ub", "db"], start="empty", steps=3)
both("Repl", "repl", dict(steps=5), ns=2, kinds=["new", "reply"], f=["send", "dlb"], start="live", steps=3)
both("Par", "par", dict(steps=4), ns=1, accts=["a@x", "b@x"], kinds=["new", "next", "stale", "reply"], levels=["blocked"],
     f=["send", "dlb"], start="live", steps=3, iso=True)
G = dict(ns=2, accts=["a@x", "b@x"], pdevs=["d1", "d2"], odevs=["d7"], levels=["trusted", "blocked", "undecided"], dec=["trusted", "blocked", "~"],
         labels=["~", "L:p"], kinds=["new", "next", "stale", "reply", "replay"], flags=["badekm", "badpayload", "empty"], thr=[99, 25], ik=[0, 1],
         rec=True, f=["dl", "ul", "ub", "db", "send", "dlb"], steps=30)
cfg("GenAll", "all", **{**G, "start": "ready"})
cfg("GenAllLive", "all", **{**G, "start": "live"})
cfg("GenLists", "lists", **{**G, "start": "ready"})
cfg("GenOwn", "own", **{**G, "start": "ready"})
cfg("GenTrust", "trust", **{**G, "start": "ready", "levels": ["trusted", "blocked", "undecided", "martian"],
                            "dec": ["~", "trusted", "blocked", "undecided", "martian"]})
cfg("GenAddr", "addr", **{**G, "start": "ready", "dec": ["trusted"]})
cfg("GenPins", "pins", **{**G, "start": "live", "dec": ["trusted"]})
cfg("GenSess", "sess", **{**G, "start": "live", "dec": ["trusted"]})
cfg("GenStale", "sess", **{**G, "start": "live", "dec": ["trusted"], "kinds": ["new", "stale", "reply"]})
cfg("GenSync", "sync", **{**G, "start": "ready", "dec": ["trusted"]})
cfg("GenLoad", "load", **{**G, "start": "empty"})
cfg("GenRepl", "repl", **{**G, "start": "live", "dec": ["trusted"]})
cfg("GenPar", "par", **{**G, "odevs": [], "start": "live", "dec": ["trusted"]})
