"""
Per property: which histories are generated (profiles), which fault positions are enumerated, which models are checked,
and which clauses of the trace specification bear on the property.
"""
from typing import Any, Dict, List, Set, Tuple

# weights that switch everything off, to be overridden
OFF = {k: 0 for k in ("create", "restart", "list", "listdel", "bundle", "nobundle", "ownbundle", "update", "refresh",
                      "refresh_all", "set_trust", "set_label", "info", "own_info", "scl", "before", "after", "ensure",
                      "replace", "encrypt", "decrypt", "purge_backend", "purge_jid", "nosession", "par", "catchup", "stale", "repurge", "double", "broken", "flood", "regain")}


def W(**kw: float) -> Dict[str, float]:
    return {**OFF, **kw}


ENCW = W(encrypt=30, set_trust=10, update=8, refresh_all=4, list=8, bundle=8, nobundle=4, decrypt=6, restart=2, purge_jid=1,
         purge_backend=1, info=2, double=0.3)
MSGW = W(encrypt=12, decrypt=50, set_trust=3, update=2, refresh_all=2, bundle=3, nobundle=1, restart=3, before=3, after=5,
         purge_jid=1, replace=3, list=2, nosession=1, catchup=1, stale=0.7, repurge=0.15, double=0.2, broken=0.6)
LISTW = W(update=40, refresh=10, refresh_all=8, list=15, info=8, own_info=3, restart=3, bundle=5, nobundle=3, set_label=3,
          purge_jid=3, encrypt=4, decrypt=3, purge_backend=1, listdel=3, double=0.5)
LOADW = W(create=15, restart=15, purge_backend=8, update=4, refresh=3, list=6, listdel=3, own_info=4, set_label=2, decrypt=6,
          encrypt=2, after=3, ensure=2)

PARW = W(par=40, list=10, bundle=10, nobundle=3, after=3, before=1, restart=2, encrypt=3, decrypt=5, refresh_all=3, purge_jid=1)
NOOWN = {"noown": True, "jids": ["a@x", "b@x", "c@x"], "cached": False}

# (weights, options) per property; several profiles are mixed round-robin
PROFILES: Dict[str, List[Tuple[Dict[str, float], Dict[str, Any]]]] = {
    "C01": [(ENCW, {"trustall": 0.3, "unklevel": 0.05}), (ENCW, {"trustall": 0.1, "nns": 2}), ({}, {}),
            (ENCW, {"trustall": 0.3, "nns": 2, "conflict": 0.6, "ikvs": [100]})],
    "C02": [({**ENCW, "replace": 8, "decrypt": 20, "bundle": 16}, {"conflict": 0.4}), (MSGW, {"conflict": 0.3}),
            ({**MSGW, "replace": 15, "bundle": 15}, {"conflict": 0.3, "trustall": 0.9})],
    "C03": [(ENCW, {"trustall": 0.8, "fault": 0.03, "unkns": 0.06}), (ENCW, {"trustall": 0.9, "badbundle": 0.0, "conflict": 0.0}),
            ({}, {"trustall": 0.8})],
    "C04": [(ENCW, {"trustall": 0.95, "fault": 0.5, "nobody": 0.1}), (ENCW, {"trustall": 0.95, "badbundle": 0.4, "conflict": 0.2})],
    "C05": [(ENCW, {"trustall": 0.8, "fault": 0.2}), ({**MSGW, "encrypt": 40}, {"trustall": 0.9}),
            ({**ENCW, "decrypt": 12, "restart": 6}, {"trustall": 0.85, "sfault": 0.08})],
    "C06": [({**MSGW, "set_trust": 10, "list": 8, "nobundle": 6, "update": 6}, {"strange": 0.2, "unklevel": 0.05, "unkns": 0.06, "fault": 0.15}),
            (MSGW, {"strange": 0.1})],
    "C07": [(MSGW, {"badekm": 0.2, "badpayload": 0.2, "kidmismatch": 0.1, "dropkex": 0.1, "conflict": 0.15, "fault": 0.1}),
            ({**MSGW, "broken": 6}, {"badekm": 0.1, "badpayload": 0.3, "pkreuse": 0.6, "live": 0.9}),
            (MSGW, {"sfault": 0.08, "badpayload": 0.15})],
    "C08": [(MSGW, {"trustall": 0.95, "mk": [20, 40, 30, 5, 15, 2], "forcekex": 0.15, "dropkex": 0.08}), (MSGW, {"trustall": 0.95, "fault": 0.03}),
            ({**MSGW, "encrypt": 30}, {"trustall": 0.95, "fault": 0.0, "jids": ["a@x"], "nns": 1})],
    "C09": [(MSGW, {"mk": [60, 10, 10, 10, 5, 2], "pkreuse": 0.7, "thr": [25, 50, 99]}),
            ({**MSGW, "before": 6, "after": 8, "restart": 6}, {"mk": [60, 10, 5, 10, 5, 2], "pkreuse": 0.7, "nns": 1, "fault": 0.05}),
            ({**MSGW, "before": 6, "after": 8, "restart": 6}, {"mk": [60, 10, 5, 10, 5, 2], "pkreuse": 0.5, "nns": 2, "fault": 0.4})],
    "C10": [(MSGW, {"mk": [80, 10, 10, 10, 5, 2], "pkreuse": 0.1, "thr": [97, 98, 99, 96, 25], "badthr": 0.2, "nns": 2, "len": 30}),
            ({**MSGW, "create": 10}, {"mk": [70, 10, 10, 10, 5, 2], "thr": [25, 26, 98, 99], "badthr": 0.3}),
            (W(decrypt=45, restart=25, create=4, after=4), {"mk": [90, 5, 0, 3, 0, 0], "pkreuse": 0.05, "thr": [99, 98, 97], "nns": 2,
             "swap": 0.85, "fault": 0.02, "conflict": 0.0, "badekm": 0.02, "badpayload": 0.02}),
            (W(decrypt=90, before=2, after=3, restart=2), {"mk": [90, 2, 0, 4, 0, 0], "pkreuse": 0.05, "thr": [92, 90, 94], "nns": 1,
             "len": 40, "live": 0.8, "fault": 0.02, "badekm": 0.02, "badpayload": 0.02, "jids": ["a@x"]}),
            (W(decrypt=20, before=1, after=3, restart=2, flood=0.6), {"thr": [25, 30, 40, 49], "nns": 1, "len": 12, "fault": 0.02, "solid": 0.9})],
    "C11": [({**MSGW, "before": 8, "after": 10, "restart": 6}, {"live": 0.1}),
            ({**MSGW, "before": 4, "after": 10, "nosession": 8, "catchup": 12}, {"live": 0.1, "mk": [70, 15, 5, 3, 3, 1], "fault": 0.03, "nns": 2}),
            ({**MSGW, "before": 6, "after": 6, "restart": 8, "purge_jid": 4}, {"live": 0.2, "fault": 0.02, "skip": 0.4}),
            ({**MSGW, "before": 8, "after": 12}, {"live": 0.3, "fault": 0.3})],
    "C12": [({**MSGW, "stale": 8}, {"live": 1.0, "skip": 0.5}), ({**MSGW, "before": 0, "restart": 0, "set_trust": 10, "stale": 8}, {"live": 1.0, "skip": 0.5, "fault": 0.03}),
            ({**MSGW, "before": 0, "restart": 0}, {"live": 1.0, "fault": 0.25})],
    "C13": [(LISTW, {}), (LISTW, {"fault": 0.3}), (LISTW, {"jids": ["a@x"], "nns": 2}), ({}, {})],
    "C14": [({**LISTW, "listdel": 12, "set_label": 8}, {"ownlist": 0.7}), ({**LISTW, "listdel": 12}, {"ownlist": 0.7, "fault": 0.35}),
            ({**MSGW, "listdel": 6, "update": 8}, {"ownlist": 0.6})],
    "C15": [(LOADW, {"small_ids": True, "len": 10}), (LOADW, {"small_ids": True, "cfault": 0.3, "swap": 0.6}),
            (LOADW, {"sfault": 0.15, "swap": 0.6, "setup": False, "len": 14}), (LOADW, {"small_ids": True, "setup": False, "len": 10})],
    "C16": [(LOADW, {"cfault": 0.3, "swap": 0.6, "setup": False, "len": 14}), (LOADW, {"sfault": 0.2, "swap": 0.6, "setup": False, "len": 14}),
            (LOADW, {"swap": 0.7, "cfault": 0.3})],
    "C17": [(LOADW, {"cfault": 0.35, "fault": 0.3, "swap": 0.7, "setup": False, "len": 14}),
            ({**LOADW, "purge_backend": 15}, {"sfault": 0.15, "swap": 0.7, "setup": False, "len": 14}),
            ({**LOADW, "purge_backend": 15}, {"cfault": 0.35, "fault": 0.3, "swap": 0.7, "len": 10})],
    "C18": [({**LOADW, "purge_backend": 20}, {"swap": 0.7, "fault": 0.05}), ({**LOADW, "purge_backend": 20, "decrypt": 10}, {"swap": 0.7, "fault": 0.25}),
            ({"purge_backend": 8}, {"trustall": 0.9})],
    "C19": [({**MSGW, "purge_jid": 12, "update": 8, "set_trust": 10, "info": 6}, {"trustall": 0.9}),
            ({**MSGW, "purge_jid": 14, "update": 8, "set_trust": 10, "info": 6}, {"sfault": 0.1, "conflict": 0.3}), ({"purge_jid": 6, "repurge": 4}, {})],
    "C21": [({**LOADW, "ensure": 25, "ownbundle": 15, "listdel": 10, "list": 10, "decrypt": 20}, {"ownlist": 0.6, "fault": 0.1}),
            ({**LOADW, "ensure": 25, "ownbundle": 15, "listdel": 10, "list": 10, "decrypt": 10}, {"ownlist": 0.6, "fault": 0.3})],
    "C23": [({**MSGW, "replace": 25, "bundle": 10, "nobundle": 5}, {"trustall": 0.95, "conflict": 0.1}),
            ({**MSGW, "replace": 25, "bundle": 10, "nobundle": 5}, {"trustall": 0.95, "fault": 0.4}),
            ({**MSGW, "replace": 25}, {"trustall": 0.95, "sfault": 0.08})],
    "C24": [({}, {"sfault": 0.15}), (LISTW, {"sfault": 0.2}), (MSGW, {"sfault": 0.15}), (LOADW, {"sfault": 0.25, "swap": 0.6})],
    "C25": [({**LISTW, "info": 30, "own_info": 10, "set_trust": 12, "nobundle": 8, "scl": 6}, {"fault": 0.2, "unk": True}),
            ({"info": 20, "scl": 6, "own_info": 6}, {"unk": True, "conflict": 0.2})],
    "C26": [({**LISTW, "set_label": 30, "listdel": 8}, {"ownlist": 0.5}), ({**LISTW, "set_label": 30}, {"ownlist": 0.5, "fault": 0.3})],
    "C30": [(PARW, NOOWN), (PARW, {**NOOWN, "live": 1.0, "trustall": 0.95, "mk": [10, 40, 35, 5, 10, 2], "fault": 0.05}),
            ({**PARW, "nosession": 0, "purge_jid": 0}, {**NOOWN, "live": 1.0, "nns": 2, "skip": 0.4, "conflict": 0.2})],
    "C34": [({}, {"unkns": 0.06, "unklevel": 0.05, "badthr": 0.15, "strange": 0.15, "fault": 0.2, "nobody": 0.08, "unk": True}),
            ({**MSGW, "purge_jid": 4, "update": 6}, {"badekm": 0.1, "badpayload": 0.15, "conflict": 0.3, "strange": 0.15, "unklevel": 0.05, "unkns": 0.05,
                                                     "fault": 0.2}),
            (LOADW, {"cfault": 0.3, "swap": 0.6, "setup": False, "len": 14, "fault": 0.2}),
            ({}, {"sfault": 0.08, "unklevel": 0.08, "trustall": 0.3, "unkns": 0.04})],
    "C28": [({**LISTW, "encrypt": 20, "create": 6}, {"ownlist": 0.5, "trustall": 0.8}), ({}, {"trustall": 0.8})],
}

# histories run with and without restarts (C31): nothing but the library's own doings changes the own published data
TWINW = {**OFF, "list": 5, "bundle": 5, "nobundle": 1, "update": 8, "refresh": 3, "refresh_all": 3, "set_trust": 8, "set_label": 3, "info": 5,
         "own_info": 2, "scl": 3, "before": 2, "after": 3, "ensure": 1, "replace": 4, "encrypt": 16, "decrypt": 30, "purge_backend": 0.5,
         "purge_jid": 2, "restart": 1, "catchup": 1, "regain": 3}
TWINO = {"conflict": 0.0, "sfault": 0.0, "idle": True}
TWINS: List[Tuple[Dict[str, float], Dict[str, Any]]] = [
    (TWINW, {**TWINO, "trustall": 0.8}), (TWINW, {**TWINO, "live": 0.0, "trustall": 0.9, "nns": 2}),
    ({**TWINW, "purge_jid": 0, "purge_backend": 0}, {**TWINO, "trustall": 0.5, "nns": 2, "jids": ["a@x"], "fault": 0.02, "len": 30})
]

# operations whose storage/network operations are enumerated one by one as crash and failure points
ENUM: Dict[str, List[str]] = {
    "C05": ["encrypt"], "C07": ["decrypt"], "C09": ["decrypt", "after"], "C11": ["decrypt", "after"], "C13": ["update"],
    "C15": ["create0"], "C16": ["create0", "create", "swap"], "C17": ["create0", "create", "swap", "purge_backend"],
    "C18": ["purge_backend", "swap"], "C19": ["purge_jid"], "C21": ["ensure"], "C23": ["replace"],
    "C24": ["create0", "swap", "update", "refresh_all", "set_label", "info", "encrypt", "decrypt", "after", "replace", "ensure",
            "purge_jid", "purge_backend", "set_trust"],
    "C26": ["set_label"]
}

STATE = {"id", "ik", "dev", "ns", "act", "lab", "pin", "tr", "q", "ses", "seen", "pkv", "pki", "spk", "bd", "sl", "sb", "pub", "wf"}


def attribute(op: str, x: str, c: str, flt: bool, sync: bool) -> Set[str]:
    """The properties a failing clause of an event is about."""
    r: Set[str] = set()
    if c == "args":
        return {"C28"}
    if c == "doc":
        return {"C34"}
    if flt and c in STATE | {"x"}:
        r.add("C24")
    if c == "wf":
        r |= {"C24"}
    if c in ("sespin", "repin"):
        r |= {"C02"}
    if c == "published":
        r |= {"C16", "C17"}
    if c == "eff.order":
        r |= {"C17"}
    if c == "stock":
        r |= {"C10"}
    if c == "eff.kex":
        return {"C08"}
    if c == "eff.pos":
        return {"C05"}
    if c == "syncsend":
        r |= {"C11"}
    if c in ("pin",):
        r |= {"C02", "C25"}
    if op == "encrypt":
        r |= {"enc.ask": {"C01"}, "enc.untrusted": {"C01", "C03"}, "enc.err": {"C04", "C02"}, "enc.nojids": {"C04"},
              "enc.addr": {"C01", "C03", "C04"}, "enc.backend": {"C03"}, "enc.once": {"C03"}, "enc.dup": {"C03"},
              "enc.kex": {"C08"}, "enc.pos": {"C05"}, "enc.msg": {"C03", "C27"}, "enc.reuse": {"C05"},
              "encatomic": {"C05"}, "ses": {"C05", "C02"}, "seen": {"C05"}, "tr": {"C01"}, "x": {"C01", "C02", "C03", "C04", "C05"},
              "eff.send": {"C05", "C11", "C12"}, "eff.sends": {"C05", "C11", "C12"}, "q": {"C05", "C11"}, "pki": {"C05", "C09"},
              "pkv": {"C05", "C10"}, "bd": {"C05", "C10"}, "dev": {"C05", "C13"}, "ns": {"C05", "C13"}, "act": {"C05", "C13"},
              "lab": {"C05", "C13"}}.get(c, {"C05"})
    elif op == "decrypt":
        r |= {"x": {"C02", "C06", "C07", "C08", "C09", "C12"}, "quiet": {"C07"}, "dec.pt": {"C06", "C07", "C27"}, "dec.kid": {"C07", "C27"},
              "dec.info": {"C06"}, "pkgone": {"C09"}, "pki": {"C09", "C07"}, "pkv": {"C10", "C07"}, "bd": {"C10", "C07"}, "pub": {"C10", "C09"},
              "sb": {"C10", "C07"}, "eff.ub": {"C10", "C07"}, "ses": {"C07", "C08", "C12", "C02"}, "seen": {"C07", "C08"},
              "q": {"C11", "C07"}, "eff.send": {"C11", "C12"}, "eff.sends": {"C11"} if sync else {"C12"}, "sl": {"C14", "C06"},
              "eff.ul": {"C14", "C06"}, "dev": {"C13", "C06"}, "ns": {"C13", "C06"}, "act": {"C13", "C06"}, "lab": {"C13", "C06"},
              "tr": {"C06"}, "spk": {"C07"}}.get(c, {"C06", "C07"})
    elif op in ("update", "refresh", "refresh_all"):
        r |= {"sl": {"C14"}, "eff.ul": {"C14"}, "x": {"C13", "C14"}}.get(c, {"C13"})
    elif op == "set_label":
        r |= {"C26"}
    elif op in ("info", "own_info", "scl"):
        r |= {"C25"}
    elif op == "set_trust":
        r |= {"C01", "C25"}
    elif op == "before":
        r |= {"C11"}
    elif op == "after":
        r |= {"pki": {"C09"}}.get(c, {"C11"})
    elif op == "ensure":
        r |= {"sl": {"C21", "C14"}, "eff.ul": {"C21", "C14"}, "act": {"C21", "C13"}}.get(c, {"C21"})
    elif op == "replace":
        r |= {"C23"} | ({"C02", "C08"} if c in ("eff.sends", "ses", "unsucc") else set())
    elif op == "purge_backend":
        r |= {"C18"}
    elif op == "purge_jid":
        r |= {"C19"}
    elif op == "create":
        r |= {"id": {"C15"}, "ik": {"C15"}, "newid": {"C15"}, "oldik": {"C15"}, "x": {"C15", "C16", "C18", "C10"},
              "pkv": {"C16", "C10"}, "bd": {"C16"}, "pub": {"C16"}, "eff.ub": {"C16"}, "sb": {"C16", "C18"},
              "sl": {"C16", "C18", "C14"}, "eff.ul": {"C16", "C18", "C14"}, "eff.db": {"C18"}, "ns": {"C16", "C18", "C15"},
              "act": {"C16", "C18"}, "lab": {"C15", "C26"}, "dev": {"C15", "C13"}, "pin": {"C15"}}.get(c, {"C15", "C16", "C18"})
    return r


def aux(c: str) -> Set[str]:
    """Clauses of the other trace specifications."""
    if c == "rot.purged":
        return {"C18"}
    if c.startswith("rot."):
        return {"C20"}
    if c.startswith("cache."):
        return {"C22", "C28"}
    if c.startswith("ty."):
        return {"C32"}
    if c.startswith("ik."):
        return {"C33"}
    if c.startswith("fp."):
        return {"C35"}
    if c.startswith("al."):
        return {"C28"}
    if c.startswith("tw."):
        return {"C31"}
    if c.startswith("e2e."):
        return {"C27"}
    return {"C29"}
