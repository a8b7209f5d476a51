"""Single source of MANIFEST.json (run by hand after editing)."""
import json, os
LIB = ("TLC checks the specification's transition functions against traces of the real library: every outcome, result, "
       "published datum, sent message and persisted row of every call is compared with what the specification allows. ")
TRUST = ("Assurance covers the explored histories; trusted: TLC, the symbolic backend and in-memory server of the harness, "
         "which log faithfully; calls of one client are sequential.")
E = {
 "core": ("TLA+ specification (Omemo.tla), exhaustively model-checked instances, TLC trace validation of real executions", LIB + TRUST),
 "fault": ("TLA+ specification, TLC trace validation of real executions with every storage/network operation of a call enumerated as crash and failure point",
           LIB + "Each storage and network operation of the call is enumerated as a crash point and as a failure point. " + TRUST),
 "cache": ("TLA+ specification of the storage cache, exhaustively enumerated schedules replayed on the real Storage, TLC trace validation",
           "All interleavings of up to three overlapping operations with all failure placements are enumerated by TLC and replayed on the real Storage class; compositions of them are sampled. Trusted: TLC and the gate-controlled storage of the harness."),
 "rot": ("TLA+ specification of signed pre key rotation with time, exhaustively model-checked; scenarios from TLC run on virtual clocks (asyncio and Twisted), TLC trace validation",
         "TLC-generated scenarios run on virtual clocks under both async frameworks; times of rotation and upload are checked by TLC. Trusted: TLC, the virtual event loop."),
 "e2e": ("TLA+ specification of several communicating devices, model-checked; TLC-generated behaviours replayed on real devices with real cryptography, TLC trace validation",
         "TLC generates send/deliver/lose/duplicate/restart behaviours which are replayed with Twomemo and Oldmemo and checked by TLC. Trusted: TLC, in-memory server."),
 "lim": ("TLA+ specification of the accepted limits, all pairs up to a bound enumerated by TLC and tried on the real Backend, results checked by TLC",
         "Exhaustive over all pairs of limits up to the bound. Trusted: TLC."),
}
E["par"] = ("TLA+ specification (Omemo.tla) with model-checked independence of operations about different contacts, TLC trace validation of overlapping real calls under seeded schedules",
            LIB + "Overlapping calls are switched at every storage and network operation under seeded schedules; because the model-checked specification shows that calls about different contacts neither read nor write each other's rows, each call is validated as if it had run alone. Trusted: TLC, the harness's projection and schedules.")
E["twin"] = ("TLA+ specification: loading again is a stuttering step of the model-checked client (Client.tla), TLC comparison of two real executions with and without restarts (TwinTrace.tla), trace validation",
             LIB + "Histories are executed twice, with and without restarts and storage cache, and TLC compares the executions call by call. " + TRUST)
E["typed"] = ("TLA+ specification of typed storage access, all values of a universe enumerated by TLC and stored/loaded in every way on the real Storage, TLC trace validation",
              "Every value of the universe is loaded in every way from cache and from disk, and random sequences with random bytes are validated. Trusted: TLC, the worker's encoding of values.")
E["ident"] = ("TLA+ specification of the identity key pair with interruptions, model-checked; all short scenarios from TLC replayed on the real code with real curve operations, TLC trace validation",
              "All sequences of interrupted loads and migrations up to length 2 (3 in the thorough tier) are replayed with random keys. Trusted: TLC, XEdDSA as reference for the curve operations.")
KIND = {"C32": "typed", "C33": "ident", "C35": "ident", "C31": "twin", "C30": "par", "C22": "cache", "C20": "rot", "C27": "e2e", "C29": "lim"}
for c in ("C15", "C16", "C17", "C18", "C19", "C23", "C24", "C05", "C07", "C26", "C21"):
    KIND[c] = "fault"
checks = []
for i in range(1, 36):
    c = f"C{i:02d}"
    t, n = E[KIND.get(c, "core")]
    checks.append(dict(property=c, quick_cmd=f"python3 harness/check.py {c}",
                       thorough_cmd=f"env VERIF_TIER=thorough python3 harness/check.py {c}",
                       evidence_file=f"evidence/{c}.json", technique=t, level="model_checking", level_note=n))
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the library is driven through its public API with harness-supplied storage, backends, "
               "network stubs and clocks. Findings: KNOWN_FINDINGS.txt; design: DESIGN.md.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
