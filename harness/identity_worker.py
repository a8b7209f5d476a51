"""Runs the scenarios of Identity.tla with the real identity key pair and real curve operations."""
import asyncio
import base64
import json
import logging
import os
import random
import sys
from typing import Any, Dict, List, Optional, Set, Tuple

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)

from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairPriv, IdentityKeyPairSeed  # noqa: E402
from omemo.session_manager import SessionManager  # noqa: E402
from omemo.storage import Just, Maybe, Nothing, Storage, StorageException  # noqa: E402
import xeddsa.bindings as xeddsa  # noqa: E402


class Crash(BaseException):
    pass


class Disk(Storage):
    def __init__(self, data: Dict[str, str], plain: bool) -> None:
        super().__init__(plain)
        self.data, self.n, self.cut, self.how, self.hit, self.writes = data, 0, -1, "", False, 0

    def op(self) -> None:
        self.n += 1
        if self.n - 1 == self.cut or (self.hit and self.how == "crash"):
            self.hit = True
            raise StorageException() if self.how == "fail" else Crash()

    async def _load(self, key: str) -> Maybe[Any]:
        self.op()
        return Just(json.loads(self.data[key])) if key in self.data else Nothing()

    async def _store(self, key: str, value: Any) -> None:
        self.op()
        self.writes += 1
        self.data[key] = json.dumps(value)

    async def _delete(self, key: str) -> None:
        self.op()
        self.writes += 1
        self.data.pop(key, None)


SEEN: Set[bytes] = set()


def form_key(ikp: IdentityKeyPair) -> Tuple[str, bytes]:
    if isinstance(ikp, IdentityKeyPairSeed):
        return "seed", ikp.seed
    assert isinstance(ikp, IdentityKeyPairPriv)
    return "priv", ikp.priv


async def persisted(data: Dict[str, str]) -> Tuple[str, bytes]:
    """What the next load would find; loading writes if and only if there is no complete key pair."""
    d = Disk(dict(data), True)
    ikp = await IdentityKeyPair.get(d)
    return form_key(ikp) if d.data == data else ("~", b"")


def disk(p: Tuple[str, bytes]) -> Dict[str, str]:
    return {"form": p[0], "key": p[1].hex() or "~"}


async def scenario(steps: List[List[Any]], ident: str, rnd: random.Random) -> Dict[str, Any]:
    data: Dict[str, str] = {}
    events: List[Dict[str, Any]] = []
    st: Optional[Disk] = None
    pre: Tuple[str, bytes] = ("~", b"")
    given = False
    for kind, k, how, where in steps:
        ev: Dict[str, Any] = {"op": kind, "x": "ok", "cut": False, "pre": disk(pre), "len": 0, "new": False, "form": "", "key": "", "pub": "",
                              "refpub": "", "asform": "", "aspriv": "", "refpriv": "", "aspub": "", "isseed": False, "ispriv": False, "signok": False, "fp": [], "reffp": []}
        if kind == "preset":
            if given or pre[0] != "~":
                continue  # only before the first load
            if how != "key":
                data["/ikp/is_seed"] = json.dumps(how == "seed")
            if how != "half":
                key = rnd.randbytes(32)
                if how == "priv":
                    # Curve25519 private keys, as other libraries generate them
                    key = bytes([key[0] & 248]) + key[1:31] + bytes([key[31] & 127 | 64])
                SEEN.add(key)
                data["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(key).decode("ASCII"))
            st = None
        else:
            if st is None or where == "new" or st.hit and st.how == "crash":
                st = Disk(data, rnd.random() < 0.4)
            st.n, st.cut, st.how, st.hit = 0, k if k < 5 else -1, how, False
            try:
                ikp = await IdentityKeyPair.get(st)
                form, key = form_key(ikp)
                as_priv = ikp.as_priv()
                ref = xeddsa.seed_to_ed25519_pub(key) if form == "seed" else xeddsa.priv_to_ed25519_pub(key)
                msg = rnd.randbytes(20)
                sig = xeddsa.ed25519_priv_sign(as_priv.priv, msg, rnd.randbytes(64))
                sigs = [sig] + ([xeddsa.ed25519_seed_sign(key, msg)] if form == "seed" else [])
                ev.update(form=form, key=key.hex(), pub=ikp.identity_key.hex(), refpub=ref.hex(), isseed=ikp.is_seed is True, ispriv=ikp.is_priv is True,
                          asform="priv" if as_priv.is_priv and isinstance(as_priv, IdentityKeyPairPriv) else "seed", aspriv=as_priv.priv.hex(),
                          refpriv=(xeddsa.seed_to_priv(key) if form == "seed" else key).hex(), aspub=as_priv.identity_key.hex(),
                          signok=all(xeddsa.ed25519_verify(s, ikp.identity_key, msg) for s in sigs))
                ev.update(fp=[list(g) for g in SessionManager.format_identity_key(ikp.identity_key)],
                          reffp=list(xeddsa.ed25519_pub_to_curve25519_pub(ref).hex()))
                given = True
            except StorageException:
                ev["x"] = "StorageException"
            except Crash:
                ev["x"] = "Crash"
            except Exception as e:  # pylint: disable=broad-except
                ev["x"] = "!" + type(e).__name__
            ev["cut"] = st.hit
        post = await persisted(data)
        ev["post"], ev["len"] = disk(post), len(post[1])
        ev["new"] = post[1] not in SEEN
        if post[1] != pre[1] and post[1]:
            SEEN.add(post[1])
        pre = post
        events.append(ev)
    return {"id": ident, "events": events}


def main() -> None:
    job = json.loads(sys.argv[1])
    rnd = random.Random(f"{job['seed']}/{job['part']}")
    ops: Dict[str, int] = {}
    n = 0
    with open(job["in"], encoding="ascii") as f, open(job["out"], "w", encoding="ascii") as out, open(job["descs"], "w", encoding="ascii") as d:
        for i, line in enumerate(f):
            if i % job["of"] != job["part"] or rnd.random() > job.get("share", 1.0):
                continue
            steps = json.loads(line)["steps"]
            tr = asyncio.run(scenario(steps, f"ik{i}", rnd))
            out.write(json.dumps(tr) + "\n")
            d.write(json.dumps({"id": tr["id"], "cfg": {}, "descs": steps}) + "\n")
            n += 1
            for e in tr["events"]:
                k = f"{e['op']}/{e['x']}"
                ops[k] = ops.get(k, 0) + 1
    print(json.dumps({"traces": n, "ops": ops, "harness_errors": 0, "points": 0}))


main()
