"""Generates one chunk of histories, runs them on the real library and writes the traces (one JSON object per line)."""
import json
import logging
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)

import gen  # noqa: E402
import props  # noqa: E402
from driver import Runner, twin  # noqa: E402


def emit(out, cfg, descs, ident, stats, dfile):
    r = Runner(cfg)
    try:
        tr = r.run(json.loads(json.dumps(descs)), ident)
    except Exception:  # pylint: disable=broad-except
        stats["harness_errors"] += 1
        stats["harness_error"] = traceback.format_exc()[-1500:]
        return r
    stats["traces"] += 1
    for e in tr["events"]:
        if e["op"] in ("env", "init"):
            continue
        k = f"{e['op']}/{e['x']}" + ("/flt" if e["flt"] else "")
        stats["ops"][k] = stats["ops"].get(k, 0) + 1
    out.write(json.dumps(tr) + "\n")
    dfile.write(json.dumps({"id": ident, "cfg": cfg, "descs": descs}) + "\n")
    return r


def of_model(line: str, n: int, seed):
    """Descriptors of a behaviour of Client.tla."""
    d = json.loads(line)
    rnd = random.Random(f"{seed}/{n}")

    def dev(x):
        return int(x[1:]) if x[0] == "d" else x

    def label(x):
        return None if x == "~" else x[2:]
    out = []
    for e in d["descs"]:
        e = dict(e)
        if "rows" in e:
            e["rows"] = [[dev(a), label(b)] for a, b in e["rows"]]
        if "dev" in e:
            e["dev"] = dev(e["dev"])
        if "label" in e:
            e["label"] = label(e["label"])
        if "f" in e:
            e["f"] = {k: v for k, v in e["f"].items() if v}
            if "dlb" in e["f"]:
                e["f"]["dlb"] = [[a, b, dev(c), k] for a, b, c, k in e["f"]["dlb"]]
        if e["op"] == "encrypt":
            e["dec"] = {"fail": e.pop("decfail")}
            da = e.pop("decall")
            if da != "~":
                e["dec"]["all"] = da
            prio = e.pop("prio")
            if e.pop("hasprio"):
                e["prio"] = prio
        if e["op"] == "decrypt":
            m = dict(e["m"])
            flag = m.pop("flag")
            if flag != "ok":
                m[flag] = True
            if m.get("pk") == "offered":
                m["pk"] = rnd.randrange(100)
            e["m"] = m
        out.append(e)
    cfg = {"own": gen.OWN, "allns": d["ns"] + ["nX"], "seed": rnd.randrange(2 ** 30), "cached": rnd.random() < 0.5}
    if rnd.random() < 0.25:
        cfg["idmin"], cfg["idmax"] = 1, 6
    if rnd.random() < 0.35:
        m = rnd.choice(gen.NAMES)
        cfg, out = gen.renamed(cfg, m), gen.renamed(out, m)
    return cfg, out


def target(g: "gen.Gen", kind: str):
    if kind == "create0" or kind == "create":
        c = g.d_create()
        c.pop("f", None)
        return c
    if kind == "swap":
        g.o["swap"] = 1.0
        c = g.d_create()
        c.pop("f", None)
        return c
    d = getattr(g, "d_" + kind)()
    d.pop("f", None)
    if kind == "decrypt":
        d["m"].pop("to", None)
    return d


def enum_case(pid: str, kind: str, seed: str, limit: int, out, stats, dfile):
    """One base history; every storage/network operation of the final call as crash point and as failure point."""
    w, o = {
        "decrypt": (props.MSGW, {"live": 0.6, "fault": 0, "trustall": 0.95, "len": 8, "badekm": 0, "badpayload": 0}),
        "after": (props.MSGW, {"live": 0.0, "fault": 0, "trustall": 0.95, "len": 10, "mk": [60, 30, 10, 0, 0, 0]}),
        "replace": (props.MSGW, {"fault": 0, "trustall": 0.95, "len": 12}),
    }.get(kind, (gen.BASE, {"fault": 0, "trustall": 0.8, "len": 8}))
    g = gen.Gen(seed, w, {**o, "setup": kind != "create0"})
    if kind == "create0":
        g.w = {**props.OFF, "list": 3}
        g.o["len"] = 3
    base = g.history()
    cfg = g.cfg()
    if kind == "create0" and g.p(0.3):
        cfg["priv"] = True
    for d in base:
        d.pop("f", None)
    if kind == "after":
        base = [d for d in base if d["op"] != "after"]
    if kind == "replace":
        # make sure that there are sessions
        base += [{"op": "encrypt", "jids": ["a@x"], "dec": {"all": "trusted"}}]
    t = target(g, kind)
    if kind == "decrypt":
        t["m"]["kind"] = g.r.choice(["new", "new", "next", "reply"])
        for q in ("badekm", "badpayload", "kidmismatch", "nsx"):
            t["m"].pop(q, None)
    if kind == "purge_backend":
        g.loaded = list(g.loaded)
    probe = Runner(cfg)
    try:
        for d in json.loads(json.dumps(base)):
            probe.step(d)
        probe.last_kinds = []
        probe.step(json.loads(json.dumps(t)))
        kinds = list(probe.last_kinds)
    except Exception:  # pylint: disable=broad-except
        stats["harness_errors"] += 1
        stats["harness_error"] = traceback.format_exc()[-1500:]
        return
    finally:
        probe.w.close()
    cases = []
    for i, k in enumerate(kinds, 1):
        cases.append(("crash", i))
        if k in ("store", "delete", "ub", "ul", "db", "send"):
            cases.append(("crash_after", i))
        if k in ("load", "store", "delete"):
            cases.append(("sfail", i))
    # crashes while reading only differ by what was written before
    cases = [c for c in cases if not (c[0] == "crash" and kinds[c[1] - 1] in ("load", "dl", "dlb", "tq"))]
    if len(cases) > limit:
        keep = [c for c in cases if c[0] != "sfail" or kinds[c[1] - 1] != "load"]
        rest = [c for c in cases if c not in keep]
        g.r.shuffle(rest)
        g.r.shuffle(keep)
        cases = (keep + rest)[:limit]
    stats["points"] = stats.get("points", 0) + len(cases)
    loaded = t["ns"] if t["op"] == "create" else (base and g.loaded or g.loaded)
    rec = {"op": "create", "ns": loaded, "label": "rec", "thr": 99, "und": "undecided"}
    rnd = random.Random(seed + "tail")
    for kindf, i in cases:
        tt = json.loads(json.dumps(t))
        tt["f"] = {kindf: i}
        again = json.loads(json.dumps(t))
        tail = [rec] if t["op"] != "create" else []
        if kindf == "sfail" and t["op"] not in ("create", "after", "purge_backend") and rnd.random() < 0.4:
            tt["restart_after_sfail"] = False
            tail = []
        if t["op"] == "decrypt":
            again["m"] = {**again["m"], "kind": "replay", "i": -1}
        elif "rows" in t and rnd.random() < 0.5:
            # something else arrives after the interruption
            again["rows"] = [r for r in t["rows"] if rnd.random() < 0.4]
        elif t["op"] == "create" and rnd.random() < 0.3:
            # resume with other backends
            again["ns"] = [n for n in g.ns if rnd.random() < 0.6] or [g.ns[0]]
        tail += [again]
        if t["op"] == "purge_backend":
            tail += [{"op": "env", "k": "restart"}, rec]
        if t["op"] == "create":
            tail += [{"op": "env", "k": "restart"}, again]
        tail += [{"op": "own_info"}, {"op": "info", "jid": "a@x"}, {"op": "after"},
                 {"op": "encrypt", "jids": ["a@x"], "dec": {"all": "trusted"}},
                 {"op": "decrypt", "ns": (loaded or ["n1"])[0], "jid": "a@x", "dev": 1, "m": {"kind": rnd.choice(["reply", "new", "next"])}},
                 {"op": "update", "ns": (loaded or ["n1"])[0], "jid": "a@x", "rows": [[1, "tail"], [2, None]]}]
        if t.get("jid") in g.o["jids"]:
            tail += [{"op": "update", "ns": n, "jid": t["jid"], "rows": rnd.choice([[], [[2, "x"]]])} for n in loaded]
        emit(out, cfg, base + [tt] + tail, f"{kind}:{seed}:{kindf}{i}", stats, dfile)


def main():
    job = json.loads(sys.argv[1])
    stats = {"traces": 0, "ops": {}, "harness_errors": 0, "points": 0}
    pid, seed = job["pid"], job["seed"]
    with open(job["out"], "w", encoding="ascii") as out, open(job["descs"], "w", encoding="ascii") as dfile:
        if job["mode"] == "random":
            profs = props.PROFILES[pid]
            for i in range(job["from"], job["to"]):
                w, o = profs[i % len(profs)]
                cfg, h = gen.make(f"{seed}/{pid}/{i}", w, o)
                cfg["mid"] = True
                emit(out, cfg, h, f"r{i}", stats, dfile)
        elif job["mode"] == "twin":
            how = job["how"]
            profs = props.TWINS if how == "tw" else props.PROFILES[pid]
            for i in range(job["from"], job["to"]):
                w, o = profs[i % len(profs)]
                cfg, h = gen.make(f"{seed}/{pid}/{i}", w, o)
                for d in h if how == "tw" else []:
                    # failures of calls that publish data would be made up for by the next load
                    if d["op"] in ("create", "after", "set_label", "purge_backend", "ensure", "refresh", "refresh_all", "update"):
                        d.pop("f", None)
                try:
                    tr = twin(cfg, h, f"{how}{i}", random.Random(f"{seed}/{i}"), how)
                except Exception:  # pylint: disable=broad-except
                    stats["harness_errors"] += 1
                    stats["harness_error"] = traceback.format_exc()[-1500:]
                    continue
                stats["traces"] += 1
                for e in tr["events"]:
                    k = f"{e['a']['op']}/{e['a']['x']}"
                    stats["ops"][k] = stats["ops"].get(k, 0) + 1
                    stats["ops"]["(restart)"] = stats["ops"].get("(restart)", 0) + len(e["ins"])
                out.write(json.dumps(tr) + "\n")
                dfile.write(json.dumps({"id": tr["id"], "cfg": cfg, "descs": h}) + "\n")
        elif job["mode"] == "enum":
            kinds = props.ENUM[pid]
            for i in range(job["from"], job["to"]):
                enum_case(pid, kinds[i % len(kinds)], f"{seed}/{pid}/e{i}", job["limit"], out, stats, dfile)
        elif job["mode"] == "file":
            # descriptors written by somebody else (the specification's simulator, a replay file)
            with open(job["in"], encoding="ascii") as f:
                for n, line in enumerate(f):
                    if n % job["of"] == job["part"]:
                        if job.get("model"):
                            cfg, ds = of_model(line, n, seed)
                            cfg["mid"] = True
                            emit(out, cfg, ds, f"m{job['model']}.{n}", stats, dfile)
                            continue
                        d = json.loads(line)
                        emit(out, d["cfg"], d["descs"], d["id"], stats, dfile)
    print(json.dumps(stats))


main()
