"""
check.py <property> [--replay FILE]

Decides one property: model-checks the specification, generates behaviours (from the specification and from seeded
generators), runs them on the library in /repo and checks the recorded traces against the specification with TLC.
Exit 0: held on everything explored; exit 1: "VIOLATION property=<id> replay=<path>"; exit 2: the machinery failed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Dict, List, Optional

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, HERE)

import plan  # noqa: E402
import props  # noqa: E402


class Machinery(Exception):
    """Something of ours is broken: no verdict."""


class Ctx:
    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.dir = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.fails: List[Dict[str, Any]] = []
        self.cov: Dict[str, Any] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.errors: List[str] = []
        self.ops: Dict[str, int] = {}
        self.t0 = time.time()
        self.jobs = 0

    def env(self, **kw: str) -> Dict[str, str]:
        e = dict(os.environ)
        e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(self.dir, "pyc"), "LC_ALL": "C.UTF-8"})
        e.update(kw)
        return e

    def quick(self) -> bool:
        return self.tier == "quick"


def tlc(ctx: Ctx, module: str, cfg: str, name: str, env: Optional[Dict[str, str]] = None, workers: int = 1,
        extra: Optional[List[str]] = None, timeout: float = 800, mem: str = "2g") -> str:
    """Run TLC; returns its output."""
    meta = os.path.join(ctx.dir, "md-" + name)
    tmp = os.path.join(ctx.dir, "tmp-" + name)
    os.makedirs(meta, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", f"-XX:ParallelGCThreads={workers}"]
    cmd = ["java", *gc, f"-Xmx{mem}", "-Xss16m", f"-Djava.io.tmpdir={tmp}", "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", *(extra or []), "-config", cfg, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=ctx.env(**(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, check=False, text=True, errors="replace")
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nVERIF-TIMEOUT\n"
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def stats(out: str) -> Any:
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def validate(ctx: Ctx, module: str, cfg: str, trace_file: str, name: str) -> Dict[str, Any]:
    """Check a file of traces against a trace specification."""
    out = tlc(ctx, module, cfg, name, {"TRACE_FILE": trace_file})
    fails = []
    for line in re.findall(r'^"FAIL\|(.*)"$', out, re.M):
        fails.append(line.split("|"))
    done = len(re.findall(r'^"DONE\|', out, re.M))
    d, g = stats(out)
    return {"fails": fails, "done": done, "ok": "Model checking completed. No error has been found" in out,
            "states": d, "transitions": g, "out": out}


def sanity(ctx: Ctx) -> bool:
    """The recorded reference traces are accepted: the machinery itself works."""
    r = validate(ctx, "Trace.tla", "Trace.cfg", os.path.join(SPEC, "sanity.ndjson"), "sanity")
    return bool(r["ok"] and not r["fails"] and r["done"] > 0)


def run_job(ctx: Ctx, job: Dict[str, Any], k: int) -> Dict[str, Any]:
    """Worker (real library) followed by trace validation (TLC)."""
    ctx.jobs += 1
    k = ctx.jobs
    job = {**job, "pid": ctx.pid, "seed": ctx.seed, "out": os.path.join(ctx.dir, f"t{k}.ndjson"),
           "descs": os.path.join(ctx.dir, f"d{k}.ndjson")}
    if "gen" in job:
        m, c, num, depth = job["gen"]
        job["in"] = generate(ctx, m, c, simulate=num, depth=depth, limit=num, seed=job["genseed"])
    hs = str(job.get("hashseed", (ctx.seed * 7919 + k) % 4294967295))
    p = subprocess.run([PY, os.path.join(HERE, job.get("worker", "worker.py")), json.dumps(job)], env=ctx.env(PYTHONHASHSEED=hs),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False, text=True, timeout=800)
    if p.returncode != 0:
        return {"error": "worker: " + p.stderr[-1500:]}
    st = json.loads(p.stdout.strip().splitlines()[-1])
    res: Dict[str, Any] = {"stats": st, "job": job, "hashseed": hs, "fails": [], "done": 0, "states": 0, "transitions": 0}
    if st["traces"]:
        mod = job.get("module", "Trace")
        v = validate(ctx, mod + ".tla", job.get("cfg", mod) + ".cfg", job["out"], f"v{k}")
        res.update({q: v[q] for q in ("fails", "done", "states", "transitions")})
        if not v["ok"] or v["done"] != st["traces"]:
            res["evalerror"] = v["out"][-3000:]
    return res


def model(ctx: Ctx, module: str, cfg: str, workers: int = 4, timeout: float = 600) -> None:
    """Check a model of the specification itself."""
    out = tlc(ctx, module + ".tla", cfg + ".cfg", "mc-" + cfg, workers=workers, timeout=timeout, mem="6g")
    if "Model checking completed. No error has been found" not in out:
        if "VERIF-TIMEOUT" in out:
            ctx.cov.setdefault("models", {})[cfg] = "not finished in time"
            return
        raise Machinery(f"model {cfg}: " + out[-2500:])
    d, g = stats(out)
    ctx.cov["states"] += d
    ctx.cov["transitions"] += g
    ctx.cov.setdefault("models", {})[cfg] = {"states": d, "transitions": g, "exhaustive": True}


def generate(ctx: Ctx, module: str, cfg: str, env: Optional[Dict[str, str]] = None, simulate: int = 0, depth: int = 0,
             limit: int = 0, timeout: float = 300, seed: int = 0) -> str:
    """Let TLC print behaviours of the specification; returns the file they are collected in."""
    extra = ["-seed", str(seed or ctx.seed)]
    if simulate:
        extra += ["-simulate", f"num={simulate}", "-depth", str(depth)]
    out = tlc(ctx, module + ".tla", cfg + ".cfg", f"gen-{cfg}-{seed}", env=env, extra=extra, timeout=timeout, mem="4g")
    lines = [json.loads(x)[4:] for x in re.findall(r'^"GEN\|.*"$', out, re.M)]
    if not lines or "Error:" in out:
        raise Machinery(f"generator {cfg}: " + out[-2500:])
    lines = list(dict.fromkeys(lines))
    if limit:
        lines = lines[:limit]
    path = os.path.join(ctx.dir, f"gen-{cfg}-{seed}.ndjson")
    with open(path, "w", encoding="ascii") as f:
        f.write("\n".join(lines) + "\n")
    ctx.cov.setdefault("generated_behaviours", {})[cfg] = ctx.cov.get("generated_behaviours", {}).get(cfg, 0) + len(lines)
    return path


def find_desc(path: str, ident: str) -> Any:
    with open(path, encoding="ascii") as f:
        for line in f:
            d = json.loads(line)
            if d["id"] == ident:
                return d
    return None


def conformance(ctx: Ctx, jobs: List[Dict[str, Any]]) -> None:
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(lambda kj: run_job(ctx, kj[1], kj[0]), enumerate(jobs)))
    evals = []
    for r in results:
        if "error" in r:
            ctx.errors.append(r["error"])
            continue
        st = r["stats"]
        if st["harness_errors"]:
            ctx.errors.append(st["harness_error"])
        ctx.cov["traces_validated_against_impl"] += r["done"]
        ctx.cov["states"] += r["states"]
        ctx.cov["transitions"] += r["transitions"]
        if st["points"]:
            ctx.cov["fault_points"] = ctx.cov.get("fault_points", 0) + st["points"]
        for k, v in st["ops"].items():
            ctx.ops[k] = ctx.ops.get(k, 0) + v
        for f in r["fails"]:
            ident, l, op, x, c, flt, sync, par = (f + ["FALSE"] * 3)[:8]
            ps = props.attribute(op, x, c, flt == "TRUE", sync == "TRUE") | ({"C30"} if par == "TRUE" else set()) if "module" not in r["job"] else props.aux(c)
            if ctx.pid in ps:
                ctx.fails.append({"trace": ident, "event": int(l), "op": op, "outcome": x, "clause": c,
                                  "hashseed": r["hashseed"], "desc": (r["job"]["descs"], ident),
                                  "kind": {q: r["job"][q] for q in ("worker", "module", "cfg") if q in r["job"]}})
            else:
                ctx.cov["other_clause_failures"] = ctx.cov.get("other_clause_failures", 0) + 1
                ctx.cov.setdefault("other_clauses", []).append("|".join(f))
        if "evalerror" in r:
            evals.append(r)
        if len(ctx.cov["samples"]) < 2 and os.path.exists(r["job"]["descs"]):
            with open(r["job"]["descs"], encoding="ascii") as f:
                line = f.readline()
            if line:
                d = json.loads(line)
                ctx.cov["samples"].append({"trace": d["id"], "cfg": d["cfg"], "operations": d["descs"][-12:]})
    if evals:
        if not sanity(ctx):
            raise Machinery("trace specification cannot be evaluated: " + evals[0]["evalerror"])
        ctx.errors.append("evaluation error: " + evals[0]["evalerror"])
        # the reference traces are fine, so the library produced something that is not even a trace of this kind
        r = evals[0]
        ctx.fails.append({"trace": "?", "event": 0, "op": "?", "outcome": "?", "clause": "malformed trace",
                          "hashseed": r["hashseed"], "detail": r["evalerror"]})


def report(ctx: Ctx, level: str, assumptions: List[str]) -> int:
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.fails)}
    ctx.cov["other_clauses"] = ctx.cov.get("other_clauses", [])[:10]
    if ctx.ops:
        ctx.cov["operations"] = dict(sorted(ctx.ops.items()))
    if ctx.errors:
        ctx.cov["machinery_errors"] = ctx.errors[:3]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    if ctx.fails:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{ctx.pid}-{ctx.seed}.json")
        first = ctx.fails[0]
        rep: Dict[str, Any] = {"property": ctx.pid, "failure": {k: v for k, v in first.items() if k != "desc"},
                               "seed": ctx.seed,
                               "all": [{k: v for k, v in f.items() if k != "desc"} for f in ctx.fails[:40]]}
        if "desc" in first:
            rep["history"] = find_desc(*first["desc"])
        with open(path, "w", encoding="utf-8") as f:
            json.dump(rep, f, indent=1)
        print("failing clauses:", sorted({f"{f['op']}/{f['outcome']}/{f['clause']}" for f in ctx.fails})[:12])
        print(f"VIOLATION property={ctx.pid} replay={path}")
        return 1
    if ctx.errors:
        print("machinery error:\n" + ctx.errors[0], file=sys.stderr)
        return 2
    print(f"{ctx.pid}: held; traces={ctx.cov['traces_validated_against_impl']} states={ctx.cov['states']}"
          f" wall={ev['wall_s']}s")
    return 0


def main() -> int:
    pid = sys.argv[1]
    ctx = Ctx(pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(ctx, sys.argv[3])
        level, assumptions = plan.run(ctx)
        return report(ctx, level, assumptions)
    except Exception as e:  # the machinery gave no answer (never exit 1 without a VIOLATION line)
        traceback.print_exc()
        print("machinery error:", e, file=sys.stderr)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)


def replay(ctx: Ctx, path: str) -> int:
    with open(path, encoding="utf-8") as f:
        rep = json.load(f)
    if not rep.get("history"):
        print("this replay file carries no history; its failure record:", json.dumps(rep["failure"])[:2000])
        return 2
    h = os.path.join(ctx.dir, "h.ndjson")
    with open(h, "w", encoding="ascii") as f:
        f.write(json.dumps(rep["history"]) + "\n")
    if rep["failure"].get("kind"):
        print("history of another kind; rerun the check with the same VERIF_SEED; the failing history is:", json.dumps(rep["history"])[:3000])
        return 2
    conformance(ctx, [{"mode": "file", "in": h, "of": 1, "part": 0, "hashseed": rep["failure"]["hashseed"]}])
    for x in ctx.fails:
        print({k: v for k, v in x.items() if k != "desc"})
    return 1 if ctx.fails else 0


if __name__ == "__main__":
    sys.exit(main())
