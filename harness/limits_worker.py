"""Constructs backends with the limit configurations generated by Limits.tla and records what happens."""
import json
import logging
import os
import sys
from typing import Any, Dict

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)

from omemo.backend import Backend  # noqa: E402


class Plain(Backend):
    pass


Plain.__abstractmethods__ = frozenset()


def main() -> None:
    job = json.loads(sys.argv[1])
    events = []
    with open(job["in"], encoding="ascii") as f:
        for line in f:
            c = json.loads(line)
            kw: Dict[str, Any] = {}
            if c["s"] != -1:
                kw["max_num_per_session_skipped_keys"] = c["s"]
            if c["m"] != -1:
                kw["max_num_per_message_skipped_keys"] = c["m"]
            ev = {"s": c["s"], "m": c["m"], "ok": False, "x": "ok", "rs": -9, "rm": -9}
            try:
                b = Plain(**kw)
                ev["ok"] = True
                rs, rm = b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys
                ev["rs"], ev["rm"] = (rs if isinstance(rs, int) else -8), (rm if isinstance(rm, int) else -8)
            except ValueError:
                ev["x"] = "ValueError"
            except Exception as e:  # pylint: disable=broad-except
                ev["x"] = "!" + type(e).__name__
                ev["ok"] = False
            events.append(ev)
    with open(job["out"], "w", encoding="ascii") as out:
        for i in range(0, len(events), 50):
            out.write(json.dumps({"id": f"limits{i}", "events": events[i:i + 50]}) + "\n")
    with open(job["descs"], "w", encoding="ascii") as d:
        d.write(json.dumps({"id": "limits0", "cfg": {}, "descs": [[e["s"], e["m"]] for e in events[:20]]}) + "\n")
    ok = sum(1 for e in events if e["ok"])
    print(json.dumps({"traces": (len(events) + 49) // 50, "ops": {"accepted": ok, "refused": len(events) - ok}, "harness_errors": 0, "points": 0}))


main()
