"""Replays schedules generated by StorageCache.tla on omemo.storage.Storage and records the histories."""
import asyncio
import base64
import json
import logging
import os
import random
import sys
from typing import Any, Dict, List, Optional

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)

from omemo.storage import Just, Maybe, Nothing, Storage, StorageException  # noqa: E402

NOTHING = ["nothing", "nothing", "nothing"]
STRS = ["", "QUJD", "AAAA", "__-_", "Zm9vYmFy"]


def text(v: Any) -> str:
    return "j" + json.dumps(v, sort_keys=True)


def tag(v: Any) -> str:
    if v is None:
        return "n"
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    if isinstance(v, str):
        return "s"
    if isinstance(v, list):
        es, p = v, "l"
    else:
        es, p = list(v.values()), "d"
    kinds = {tag(e) for e in es}
    if not es:
        return p + "e"
    return p + kinds.pop() if len(kinds) == 1 else p + "m"


def row(v: Any) -> List[str]:
    y = "y" + base64.urlsafe_b64decode(v.encode("ASCII")).hex() if isinstance(v, str) else "-"
    return [tag(v), text(v), y]


TYPES = {"int": int, "str": str, "bool": bool, "float": float, "optint": int, "optstr": str, "listint": int, "liststr": str,
         "dictint": int, "dictbool": bool}


def mutate(v: Any) -> None:
    if isinstance(v, list):
        for e in v:
            mutate(e)
        v.append("mutated")
    elif isinstance(v, dict):
        for e in v.values():
            mutate(e)
        v["mutated"] = True


class Gate:
    def __init__(self) -> None:
        self.fut: Optional[asyncio.Future] = None
        self.credit = 0

    async def wait(self) -> None:
        if self.credit:
            self.credit -= 1
            return
        self.fut = asyncio.get_running_loop().create_future()
        await self.fut

    def go(self) -> None:
        if self.fut is not None and not self.fut.done():
            self.fut.set_result(None)
            self.fut = None
        else:
            self.credit += 1


class Failed(StorageException):
    pass


class Store(Storage):
    def __init__(self, nocache: bool, rnd: random.Random) -> None:
        super().__init__(nocache)
        self.data: Dict[str, str] = {}
        self.live: Dict[Any, Any] = {}   # running task -> (gate of the effect, gate of the completion, fails)
        self.rnd = rnd

    async def io(self, do: Any) -> Any:
        g = self.live.get(asyncio.current_task())
        if g is None:
            return do()
        await g["eff"].wait()
        if g["fail"]:
            await g["fin"].wait()
            raise Failed()
        r = do()
        await g["fin"].wait()
        return r

    async def _load(self, key: str) -> Maybe[Any]:
        def do() -> Maybe[Any]:
            return Just(json.loads(self.data[key])) if key in self.data else Nothing()
        return await self.io(do)

    async def _store(self, key: str, value: Any) -> None:
        def do() -> None:
            self.data[key] = json.dumps(value)
        await self.io(do)

    async def _delete(self, key: str) -> None:
        await self.io(lambda: self.data.pop(key, None))


class Run:
    def __init__(self, rnd: random.Random, nocache: bool) -> None:
        self.rnd = rnd
        self.s = Store(nocache, rnd)
        self.events: List[Dict[str, Any]] = []
        self.held: List[Any] = []
        self.n = 0
        self.keep: List[Maybe[Any]] = []

    def value(self) -> Any:
        r = self.rnd
        k = r.randrange(12)
        n = r.randrange(5)
        return [n, r.choice(STRS), r.random() < 0.5, None, n + 0.5, [n, n + 1], [r.choice(STRS)], [], {"a": n}, {"a": True, "b": False}, {},
                {"x": [n, {"y": [n]}], "z": None}][k]

    def log(self, k: str, key: str, o: Dict[str, Any], x: str) -> None:
        self.events.append({"k": k, "key": key, "o": o, "x": x})

    async def op(self, key: str, kind: str, o: Dict[str, Any], value: Any) -> None:
        s = self.s
        typ = o["typ"]
        x = "!Other"
        try:
            if kind == "store":
                if typ == "bytes":
                    await s.store_bytes(key, base64.urlsafe_b64decode(value.encode("ASCII")))
                else:
                    await s.store(key, value)
                x = "ok"
                mutate(value)
            elif kind == "delete":
                await s.delete(key)
                x = "ok"
            else:
                if typ == "any":
                    m = await s.load(key)
                elif typ == "bytes":
                    m = await s.load_bytes(key)
                elif typ.startswith("opt"):
                    m = await s.load_optional(key, TYPES[typ])
                elif typ.startswith("list"):
                    m = await s.load_list(key, TYPES[typ])
                elif typ.startswith("dict"):
                    m = await s.load_dict(key, TYPES[typ])
                else:
                    m = await s.load_primitive(key, TYPES[typ])
                if m.is_nothing:
                    x = "nothing" if not m.is_just else "!Both"
                    if m.maybe("dflt") != "dflt" or not m.fmap(lambda q: q).is_nothing:
                        x = "!Nothing"
                else:
                    v = m.from_just() if self.rnd.random() < 0.5 else m.maybe(None)
                    x = "y" + v.hex() if isinstance(v, bytes) else text(v)
                    # whatever the application does with what it got stays with the application
                    mutate(v)
                    if self.rnd.random() < 0.5:
                        m.fmap(mutate)
                    w = m.from_just()
                    if ("y" + w.hex() if isinstance(w, bytes) else text(w)) != x:
                        x = "!aliased"
                    mutate(w)
        except Failed:
            x = "fail"
        except TypeError:
            x = "TypeError"
        except Exception as e:  # pylint: disable=broad-except
            x = "!Other"
        self.log("res", key, o, x)

    async def settle(self) -> None:
        for _ in range(12):
            await asyncio.sleep(0)

    async def play(self, scheds: List[Any], keys: List[str]) -> None:
        """Interleave one schedule per key."""
        pos = [0] * len(scheds)
        gates: Dict[Any, Dict[str, Any]] = {}
        tasks: List[Any] = []
        fails = {(q, h[1]) for q, sc in enumerate(scheds) for h in sc if h[0] == "eff" and h[2] == "fail"}
        while any(pos[q] < len(scheds[q]) for q in range(len(scheds))):
            q = self.rnd.choice([q for q in range(len(scheds)) if pos[q] < len(scheds[q])])
            what, i, arg = scheds[q][pos[q]]
            pos[q] += 1
            if what == "inv":
                self.n += 1
                value = self.value() if arg == "store" else None
                typ = "any"
                if arg == "load" and self.rnd.random() < 0.4:
                    typ = self.rnd.choice(sorted(TYPES) + ["bytes"])
                if arg == "store" and isinstance(value, str) and self.rnd.random() < 0.5:
                    typ = "bytes"
                o = {"id": self.n, "kind": arg, "typ": typ, "val": row(value) if arg == "store" else NOTHING}
                g = {"eff": Gate(), "fin": Gate(), "fail": (q, i) in fails}
                gates[(q, i)] = g
                self.log("inv", keys[q], o, "")

                async def start(q: int = q, o: Dict[str, Any] = o, arg: str = arg, value: Any = value, g: Any = g) -> None:
                    self.s.live[asyncio.current_task()] = g
                    await self.op(keys[q], arg, o, value)

                tasks.append(asyncio.ensure_future(start()))
            else:
                gates[(q, i)][what].go()
            await self.settle()
        # whatever still waits is released
        for _ in range(20):
            if all(t.done() for t in tasks):
                break
            for g in gates.values():
                g["eff"].go()
                g["fin"].go()
            await self.settle()
        if not all(t.done() for t in tasks):
            raise RuntimeError("operations do not complete")
        for key in keys:
            self.log("quiet", key, {"id": 0, "kind": "load", "typ": "any",
                                    "val": row(json.loads(self.s.data[key])) if key in self.s.data else NOTHING}, "")
            for _ in range(2):
                self.n += 1
                o = {"id": self.n, "kind": "load", "typ": "any", "val": NOTHING}
                self.log("inv", key, o, "")
                await self.op(key, "load", o, None)


def main() -> None:
    job = json.loads(sys.argv[1])
    stats: Dict[str, Any] = {"traces": 0, "ops": {}, "harness_errors": 0, "points": 0}
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    with open(job["in"], encoding="ascii") as f:
        scheds = [json.loads(line)["h"] for line in f]
    with open(job["out"], "w", encoding="ascii") as out, open(job["descs"], "w", encoding="ascii") as dfile:
        def emit(ident: str, seed: str, nocache: bool, rounds: List[List[int]]) -> None:
            rnd = random.Random(seed)
            r = Run(rnd, nocache)
            keys = ["/a", "/b"][:max(len(x) for x in rounds)]
            init = {}
            for k in ["/a", "/b"]:
                init[k] = NOTHING
                if rnd.random() < 0.6:
                    v = r.value()
                    r.s.data[k] = json.dumps(v)
                    init[k] = row(v)
            try:
                for x in rounds:
                    loop.run_until_complete(asyncio.wait_for(r.play([scheds[i] for i in x], keys[:len(x)]), 20))
            except Exception as e:  # pylint: disable=broad-except
                stats["hangs"] = stats.get("hangs", 0) + 1
                r.log("quiet", keys[0], {"id": 0, "kind": "load", "typ": "any", "val": ["!hang", str(type(e)), "-"]}, "")
            stats["traces"] += 1
            for e in r.events:
                if e["k"] == "res":
                    kk = e["o"]["kind"] + "/" + (e["x"] if e["x"] in ("ok", "fail", "nothing", "TypeError") or e["x"].startswith("!") else "value")
                    stats["ops"][kk] = stats["ops"].get(kk, 0) + 1
            out.write(json.dumps({"id": ident, "init": init, "events": r.events}) + "\n")
            dfile.write(json.dumps({"id": ident, "cfg": {"nocache": nocache}, "descs": [scheds[i] for x in rounds for i in x]}) + "\n")

        for i in range(len(scheds)):
            if i % job["of"] == job["part"]:
                emit(f"s{i}", f"{job['seed']}/{i}", i % 5 == 4 and not job.get("cachedonly"), [[i]])
        rnd = random.Random(f"{job['seed']}/mix/{job['part']}")
        for i in range(job.get("mix", 0)):
            rounds = [[rnd.randrange(len(scheds)) for _ in range(rnd.randint(1, 2))] for _ in range(rnd.randint(1, 4))]
            emit(f"m{job['part']}.{i}", f"{job['seed']}/m{job['part']}.{i}", rnd.random() < 0.15, rounds)
    print(json.dumps(stats))


main()
