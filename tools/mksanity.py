"""Records spec/sanity.ndjson: reference traces of the repaired library, used to tell a broken toolchain from a broken library."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
with tempfile.TemporaryDirectory() as d:
    job = {"mode": "random", "from": 0, "to": 6, "pid": "C13", "seed": 0, "out": d + "/t", "descs": d + "/d"}
    subprocess.run(["/opt/venv/bin/python", root + "/harness/worker.py", json.dumps(job)], check=True,
                   env={**os.environ, "PYTHONHASHSEED": "1", "PYTHONDONTWRITEBYTECODE": "1"})
    open(root + "/spec/sanity.ndjson", "w").write(open(d + "/t").read())
