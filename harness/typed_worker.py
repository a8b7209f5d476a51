"""Stores the values generated by Typed.tla with the real storage class and loads them in every way."""
import asyncio
import json
import logging
import os
import random
import sys
from typing import Any, Dict, List

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)

from omemo.storage import Just, Maybe, Nothing, NothingException, Storage  # noqa: E402

PRIMS: Dict[str, Any] = {"none": None, "true": True, "false": False, "0": 0, "1": 1, "-7": -7, "big": 2 ** 70 + 1, "1.5": 1.5, "2.0": 2.0,
                         "s:": "", "s:abcd": "abcd", "s:uni": "\u00fc\u20ac\U0001f600\x00 ", "s:0": "0"}
TYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str}
BYTES = {"empty": b"", "zero": b"\x00", "ff": b"\xff\xfe\xfb\xff", "all": bytes(range(256)), "key": bytes(range(200, 232)), "utf8": "\u00fc".encode(),
         "b64": b"YWJjZA=="}
NESTED: Dict[str, Any] = {"LL": [[1], [2]], "LD": [{"a": 1}], "DL": {"k": [1, 2]}, "DD": {"k": {"a": None}}}


class Default:
    pass


class Disk(Storage):
    def __init__(self, data: Dict[str, str], plain: bool) -> None:
        super().__init__(plain)
        self.data = data

    async def _load(self, key: str) -> Maybe[Any]:
        return Just(json.loads(self.data[key])) if key in self.data else Nothing()

    async def _store(self, key: str, value: Any) -> None:
        self.data[key] = json.dumps(value)

    async def _delete(self, key: str) -> None:
        self.data.pop(key, None)


def prim(v: Any) -> str:
    for k, p in PRIMS.items():
        if type(p) is type(v) and p == v:
            return k
    return "?" + repr(v)


class Run:
    def __init__(self, ident: str, plain: bool) -> None:
        self.id, self.events, self.data = ident, [], {}
        self.bytes = dict(BYTES)
        self.st = Disk(self.data, plain)

    def value(self, v: List[str]) -> Any:
        if v[0] == "P":
            return PRIMS[v[1]]
        if v[0] == "L":
            return [PRIMS[p] for p in v[1:]]
        if v[0] == "D":
            return {v[i]: PRIMS[v[i + 1]] for i in range(1, len(v), 2)}
        if v[0] == "N":
            return json.loads(json.dumps(NESTED[v[1]]))
        return self.bytes[v[1]]

    def token(self, v: Any) -> List[str]:
        if isinstance(v, bytes):
            return ["B", next((k for k, b in self.bytes.items() if b == v), "?" + v.hex())]
        for k, n in NESTED.items():
            if type(n) is type(v) and n == v:
                return ["N", k]
        if isinstance(v, list):
            return ["L"] + [prim(p) for p in v]
        if isinstance(v, dict):
            return ["D"] + [x for k in sorted(v) for x in (k, prim(v[k]))]
        return ["P", prim(v)]

    def log(self, **kw: Any) -> None:
        self.events.append({"op": "", "key": "k1", "v": [], "x": "ok", "kind": "", "type": "", "just": False, "nothing": False,
                            "dflt": "", "fj": "", **kw})

    async def store(self, key: str, v: List[str]) -> None:
        x = "ok"
        try:
            o = self.value(v)
            if v[0] == "B":
                await self.st.store_bytes(key, o)
            else:
                await self.st.store(key, o)
            scribble(o)
        except Exception as e:  # pylint: disable=broad-except
            x = "!" + type(e).__name__
        self.log(op="store", key=key, v=v, x=x)

    async def delete(self, key: str) -> None:
        x = "ok"
        try:
            await self.st.delete(key)
        except Exception as e:  # pylint: disable=broad-except
            x = "!" + type(e).__name__
        self.log(op="delete", key=key, x=x)

    def restart(self, plain: bool) -> None:
        self.st = Disk(self.data, plain)
        self.log(op="restart")

    async def load(self, key: str, kind: str, typ: str) -> None:
        ev: Dict[str, Any] = {"op": "load", "key": key, "kind": kind, "type": typ}
        try:
            if kind == "load":
                m: Maybe[Any] = await self.st.load(key)
            elif kind == "bytes":
                m = await self.st.load_bytes(key)
            else:
                m = await getattr(self.st, "load_" + kind)(key, TYPES[typ])
            ev["just"], ev["nothing"] = m.is_just is True, m.is_nothing is True
            d = m.maybe(Default())
            ev["dflt"] = "default" if isinstance(d, Default) else "value"
            try:
                v = m.from_just()
                ev.update(x="ok", fj="value", v=self.token(v))
                if ev["dflt"] == "value" and self.token(d) != ev["v"]:
                    ev["dflt"] = "other"
                scribble(v)
            except NothingException:
                ev.update(x="nothing", fj="NothingException")
        except TypeError:
            ev["x"] = "TypeError"
        except Exception as e:  # pylint: disable=broad-except
            ev["x"] = "!" + type(e).__name__
        self.log(**ev)


def scribble(o: Any) -> None:
    """The application does what it likes with values it passed or received."""
    if isinstance(o, list):
        o.append("scribble")
    elif isinstance(o, dict):
        o["scribble"] = 1


WAYS = [("load", ""), ("bytes", "")] + [(k, t) for k in ("primitive", "optional", "list", "dict") for t in TYPES]


async def one(v: List[str], plain: bool, ident: str) -> Run:
    r = Run(ident, plain)
    await r.load("k1", "load", "")
    await r.store("k1", v)
    for again in range(3):
        for k, t in WAYS:
            await r.load("k1", k, t)
        if again == 0:
            r.restart(plain)
    await r.delete("k1")
    for k, t in WAYS:
        await r.load("k1", k, t)
    return r


async def mixed(vals: List[List[str]], rnd: random.Random, ident: str) -> Run:
    r = Run(ident, rnd.random() < 0.3)
    for i in range(6):
        r.bytes[f"r{i}"] = rnd.randbytes(rnd.choice([0, 1, 2, 3, 16, 31, 32, 33, 100]))
        if list(r.bytes.values()).count(r.bytes[f"r{i}"]) > 1:
            del r.bytes[f"r{i}"]
    vals = vals + [["B", b] for b in r.bytes] * 3
    for _ in range(60):
        key, c = rnd.choice(["k1", "k2"]), rnd.random()
        if c < 0.3:
            await r.store(key, rnd.choice(vals))
        elif c < 0.36:
            await r.delete(key)
        elif c < 0.42:
            r.restart(rnd.random() < 0.3)
        else:
            await r.load(key, *(rnd.choice(WAYS) if rnd.random() < 0.6 else rnd.choice([("load", ""), ("bytes", ""), ("primitive", "str")])))
    return r


def main() -> None:
    job = json.loads(sys.argv[1])
    with open(job["in"], encoding="ascii") as f:
        vals = [json.loads(x)["v"] for x in f]
    runs: List[Run] = []

    async def go() -> None:
        for i, v in enumerate(vals):
            if i % job["of"] == job["part"]:
                for plain in (False, True):
                    runs.append(await one(v, plain, f"ty{i}{'p' if plain else 'c'}"))
        for i in range(job["mix"]):
            runs.append(await mixed(vals, random.Random(f"{job['seed']}/{job['part']}/{i}"), f"mix{job['part']}.{i}"))
    asyncio.run(go())
    ops: Dict[str, int] = {}
    with open(job["out"], "w", encoding="ascii") as out, open(job["descs"], "w", encoding="ascii") as d:
        for r in runs:
            out.write(json.dumps({"id": r.id, "events": r.events}) + "\n")
            d.write(json.dumps({"id": r.id, "cfg": {}, "descs": [[e[k] for k in ("op", "key", "v", "kind", "type", "x")] for e in r.events]}) + "\n")
            for e in r.events:
                k = f"{e['op']}{('_' + e['kind']) if e['kind'] else ''}/{e['x']}"
                ops[k] = ops.get(k, 0) + 1
    print(json.dumps({"traces": len(runs), "ops": ops, "harness_errors": 0, "points": 0}))


main()
