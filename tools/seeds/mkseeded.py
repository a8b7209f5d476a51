"""Writes /verif/seeded/<id>/ from bugs.py (run after changing it; needs /repo clean)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa: E402

SH = """#!/bin/bash
# cwd: the repository; exit 0 if the property holds in the demonstrated situation
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$D/demo.py"
"""


def main() -> None:
    only = set(sys.argv[1:])
    wt = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", os.environ.get("SEED_REPO", "/repo"), "worktree", "add", "-q", "--detach", wt + "/r", "HEAD"])
    try:
        for b in BUGS:
            if only and b["id"] not in only:
                continue
            d = f"{VERIF}/seeded/{b['id']}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for path, old, new in b["edits"]:
                p = f"{wt}/r/omemo/{path}"
                s = open(p).read()
                if s.count(old) != 1:
                    print("!!", b["id"], s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", wt + "/r", "diff"]).decode()
            open(d + "/patch.diff", "w").write(diff)
            subprocess.check_call(["git", "-C", wt + "/r", "checkout", "-q", "--", "."])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write("from demolib import *\n" + b["demo"].rstrip() + "\nprint('ok')\n")
            shutil.copy(HERE + "/demolib.py", d)
            for f in ("sym.py", "world.py"):
                shutil.copy(f"{VERIF}/harness/{f}", d)
    finally:
        subprocess.call(["git", "-C", os.environ.get("SEED_REPO", "/repo"), "worktree", "remove", "--force", wt + "/r"])
        shutil.rmtree(wt, ignore_errors=True)


main()
