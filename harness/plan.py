"""What each check runs, per tier."""
from typing import Any, Dict, List, Tuple

import props

BASE_ASSUMPTIONS = [
    "calls of one client are not interleaved with each other (except in C20, C22 and C30, whose subject they are)",
    "storage and backend honour their documented contracts (symbolic backend harness/sym.py)",
    "a failing storage operation has no effect; the crash points are the storage and network operations"
]

# models of the specification itself, checked exhaustively: (module, quick config, thorough config)
CLIENT = {
    "C01": ["Trust"], "C02": ["Pins"], "C03": ["Addr"], "C04": ["Addr"], "C05": ["Sess"], "C06": ["Sess"], "C07": ["Sess"],
    "C08": ["Sess"], "C09": ["Sync"], "C10": ["Stale"], "C11": ["Sync"], "C12": ["Stale"], "C13": ["Lists"], "C14": ["Own"],
    "C15": ["Load"], "C16": ["Load"], "C17": ["Load"], "C18": ["Load"], "C19": ["Sync"], "C21": ["Own"], "C23": ["Repl"],
    "C24": ["Load"], "C25": ["Pins"], "C26": ["Own"], "C28": ["Lists"], "C30": ["Par"], "C31": ["Load"],
    "C34": ["Stale", "Load"],
}
MODELS: Dict[str, List[Tuple[str, str, str]]] = {
    "C08": [("E2E", "E2EMC", "E2EMCbig")], "C27": [("E2E", "E2EMC", "E2EMCbig")],
    "C20": [("Rotation", "RotationMC", "RotationMCbig")], "C18": [("Rotation", "RotationMC", "RotationMCbig")],
    "C33": [("Identity", "IdentityMC", "IdentityMC")], "C35": [("Identity", "IdentityMC", "IdentityMC")],
    "C22": [("StorageCache", "StorageMC", "StorageMCbig"), ("StorageCache", "StorageMCplain", "StorageMCplain")],
}


def split(path: str, parts: int, **kw: Any) -> List[Dict[str, Any]]:
    return [{"mode": "file", "in": path, "of": parts, "part": i, **kw} for i in range(parts)]


def conf_jobs(ctx: Any, scale: float = 1.0) -> List[Dict[str, Any]]:
    jobs: List[Dict[str, Any]] = []
    pid = ctx.pid
    nr, chunk = (int(1600 * scale), 100) if ctx.quick() else (int(40000 * scale), 500)
    if pid in props.PROFILES:
        jobs += [{"mode": "random", "from": i, "to": min(i + chunk, nr)} for i in range(0, nr, chunk)]
    if pid in props.ENUM:
        ne, limit = (max(16, 8 * len(props.ENUM[pid])), 40) if ctx.quick() else (60 * len(props.ENUM[pid]), 400)
        step = max(1, ne // 16) if ctx.quick() else 8
        jobs += [{"mode": "enum", "from": i, "to": min(i + step, ne), "limit": limit} for i in range(0, ne, step)]
    return jobs


def limits(ctx: Any, check: Any) -> List[Dict[str, Any]]:
    import os
    g = check.generate(ctx, "Limits", "LimitsGen", {"LIMITS_K": "12" if ctx.quick() else "60", "TRACE_FILE": os.devnull})
    return split(g, 1, worker="limits_worker.py", module="Limits", cfg="LimitsTrace")


def cache(ctx: Any, check: Any, scale: float = 1.0) -> List[Dict[str, Any]]:
    """Every schedule of up to three overlapping operations, plus sampled compositions of them on two keys."""
    g = check.generate(ctx, "StorageCache", "StorageGen" if ctx.quick() else "StorageGenBig", timeout=500)
    parts = 8 if ctx.quick() else 64
    return split(g, parts, worker="cache_worker.py", module="StorageTrace", mix=int((100 if ctx.quick() else 1000) * scale))


def typed(ctx: Any, check: Any) -> List[Dict[str, Any]]:
    import os
    g = check.generate(ctx, "Typed", "TypedGen", {"TRACE_FILE": os.devnull})
    parts, mix = (8, 250) if ctx.quick() else (64, 3000)
    return split(g, parts, worker="typed_worker.py", module="Typed", cfg="TypedTrace", mix=mix)


def identity(ctx: Any, check: Any) -> List[Dict[str, Any]]:
    import os
    g = check.generate(ctx, "Identity", "IdentityGen" if ctx.quick() else "IdentityGenBig", {"TRACE_FILE": os.devnull})
    return split(g, 8 if ctx.quick() else 32, worker="identity_worker.py", module="Identity", cfg="IdentityTrace")


def rotation(ctx: Any, check: Any, n: int) -> List[Dict[str, Any]]:
    g = check.generate(ctx, "RotationGen", "RotationGen", {"ROT_N": str(n)})
    return split(g, 8 if ctx.quick() else 32, worker="rot_worker.py", module="RotationTrace")


def e2e(ctx: Any, check: Any) -> List[Dict[str, Any]]:
    if ctx.quick():
        g = check.generate(ctx, "E2E", "E2EGen", simulate=250, depth=30, limit=240)
        b = check.generate(ctx, "E2E", "E2EGenBurst", simulate=200, depth=30, limit=160)
        return split(g, 4, worker="e2e_worker.py", module="E2ETrace") + split(b, 4, worker="e2e_worker.py", module="E2ETrace")
    jobs = []
    for i in range(4):
        g = check.generate(ctx, "E2E", "E2EGenBig", simulate=1500, depth=60, limit=1200, seed=ctx.seed * 100 + i)
        jobs += split(g, 32, worker="e2e_worker.py", module="E2ETrace")
        g = check.generate(ctx, "E2E", "E2EGenBurstBig", simulate=800, depth=70, limit=600, seed=ctx.seed * 100 + i)
        jobs += split(g, 32, worker="e2e_worker.py", module="E2ETrace")
    return jobs


def client(ctx: Any) -> List[Dict[str, Any]]:
    """Behaviours of Client.tla, simulated by TLC, replayed on the library."""
    groups = CLIENT.get(ctx.pid, [])
    jobs: List[Dict[str, Any]] = []
    cfgs = ["Gen" + x for x in groups] * 2 + ["GenAll", "GenAllLive"] if groups else []
    num, reps = (40, 1) if ctx.quick() else (300, 12)
    for r in range(reps):
        for i, c in enumerate(cfgs):
            jobs.append({"mode": "file", "of": 1, "part": 0, "gen": ["ClientMC", c, num, 60], "model": f"{c}.{r}.{i}",
                         "genseed": ctx.seed * 1000 + r * 10 + i})
    return jobs


def run(ctx: Any) -> Tuple[str, List[str]]:
    import check
    pid = ctx.pid
    for module, quick, thorough in MODELS.get(pid, []):
        check.model(ctx, module, quick if ctx.quick() else thorough, workers=8)
    for x in CLIENT.get(pid, []):
        check.model(ctx, "ClientMC", f"MC{x}" + ("" if ctx.quick() else "Big"), workers=8, timeout=60 if ctx.quick() else 1500)
    jobs = client(ctx) + conf_jobs(ctx)
    if pid == "C31":
        n, c = (960, 60) if ctx.quick() else (20000, 200)
        jobs += [{"mode": "twin", "how": "tw", "module": "TwinTrace", "from": i, "to": i + c} for i in range(0, n, c)]
    if pid == "C29":
        jobs += limits(ctx, check)
    if pid == "C32":
        jobs += typed(ctx, check)
    if pid in ("C33", "C35"):
        jobs += identity(ctx, check)
    if pid == "C22":
        jobs += cache(ctx, check)
    if pid == "C28":
        jobs += cache(ctx, check, 0.2)
        n, c = (480, 60) if ctx.quick() else (10000, 200)
        jobs += [{"mode": "twin", "how": "al", "module": "TwinTrace", "from": i, "to": i + c} for i in range(0, n, c)]
    if pid == "C20":
        jobs += rotation(ctx, check, 500 if ctx.quick() else 4000)
    if pid == "C18":
        jobs += rotation(ctx, check, 100 if ctx.quick() else 1500)
    if pid == "C27":
        jobs += e2e(ctx, check)
    check.conformance(ctx, jobs)
    return "model_checking", BASE_ASSUMPTIONS
