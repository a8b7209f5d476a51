---------------------------- MODULE StorageCache ----------------------------
(***************************************************************************)
(* The caching algorithm of omemo.storage.Storage at the granularity of    *)
(* its awaits, for one key, and the environment: up to MaxOps concurrent   *)
(* operations, each consisting of invocation, effect on the backing store  *)
(* (or failure) and completion; writes don't overlap each other.           *)
(*                                                                         *)
(* Checked: every behaviour is one of an atomic register (Register.tla).   *)
(* With hist # <<>> recording on, the same module generates the schedules  *)
(* that are replayed on the implementation.                                *)
(***************************************************************************)
EXTENDS Register, Json

CONSTANTS MaxOps, Cached, Algo, MaxFails, Record, Initial

Initials == {Nothing, <<"i", "0", "-">>}
OneInitial == {<<"i", "0", "-">>}
VARIABLES disk, cache, ops, reg, hist
vars == <<disk, cache, ops, reg, hist>>

NoEntry == <<"-", "-", "-">>
V(i) == <<"i", ToString(i), "-">>
Idle == [st |-> "idle"]
Op(i, kind) == [id |-> i, kind |-> kind, typ |-> "any", val |-> IF kind = "store" THEN V(i) ELSE Nothing]

Writes(k) == k \in {"store", "delete"}
InFlight(i) == ops[i].st \in {"inv", "eff", "failed"}
WriteInFlight == \E i \in DOMAIN ops : InFlight(i) /\ Writes(ops[i].o.kind)

Init == /\ disk \in Initial
        /\ cache = NoEntry
        /\ ops = <<>>
        /\ reg = Fresh(disk)
        /\ hist = <<>>

H(x) == hist' = IF Record THEN Append(hist, x) ELSE <<>>
Invocation(kind) ==
    LET i == Len(ops) + 1
        o == Op(i, kind)
    IN  /\ i <= MaxOps
        /\ Writes(kind) => ~WriteInFlight
        /\ IF kind = "load" /\ Cached /\ cache # NoEntry
           THEN \* served from the cache without suspending
                /\ ops' = Append(ops, [st |-> "done", o |-> o, got |-> cache])
                /\ reg' = Respond(Invoke(reg, o), o, Shown("any", cache))
           ELSE /\ ops' = Append(ops, [st |-> "inv", o |-> o, got |-> Nothing])
                /\ reg' = Invoke(reg, o)
        /\ H(<<"inv", i, kind>>)
        /\ UNCHANGED <<disk, cache>>

Fails == Cardinality({i \in DOMAIN ops : ops[i].st = "failed"}) + Cardinality({i \in DOMAIN ops : ops[i].st = "fdone"})

DoEffect(i) ==
    /\ ops[i].st = "inv"
    /\ LET o == ops[i].o
       IN  /\ disk' = CASE o.kind = "store" -> o.val [] o.kind = "delete" -> Nothing [] OTHER -> disk
           /\ ops' = [ops EXCEPT ![i] = [st |-> "eff", o |-> o, got |-> disk]]
    /\ H(<<"eff", i, "ok">>)
    /\ UNCHANGED <<cache, reg>>

DoFail(i) ==
    /\ ops[i].st = "inv" /\ Fails < MaxFails
    /\ ops' = [ops EXCEPT ![i].st = "failed"]
    /\ H(<<"eff", i, "fail">>)
    /\ UNCHANGED <<disk, cache, reg>>

Complete(i) ==
    LET o == ops[i].o
        loaded == IF Algo = "overwrite" THEN ops[i].got ELSE IF cache = NoEntry THEN ops[i].got ELSE cache
        shown == IF Cached THEN loaded ELSE ops[i].got
    IN  /\ ops[i].st \in {"eff", "failed"}
        /\ IF ops[i].st = "failed"
           THEN /\ UNCHANGED cache
                /\ reg' = Respond(reg, o, "fail")
                /\ ops' = [ops EXCEPT ![i].st = "fdone"]
           ELSE /\ cache' = IF ~Cached THEN cache ELSE
                            CASE o.kind = "store" -> o.val [] o.kind = "delete" -> Nothing [] OTHER -> loaded
                /\ reg' = Respond(reg, o, IF o.kind = "load" THEN Shown("any", shown) ELSE "ok")
                /\ ops' = [ops EXCEPT ![i].st = "done"]
        /\ H(<<"fin", i, "">>)
        /\ UNCHANGED disk

Next == \/ \E k \in {"load", "store", "delete"} : Invocation(k)
        \/ \E i \in DOMAIN ops : DoEffect(i) \/ DoFail(i) \/ Complete(i)
Spec == Init /\ [][Next]_vars

Quiet == \A i \in DOMAIN ops : ~InFlight(i)
Linearizable == reg.w # {}
Current == Quiet => /\ Quiesce(reg, disk).w # {}
                    /\ Cached /\ cache # NoEntry => cache = disk

\* the generator prints every complete schedule
Emit == (Record /\ Quiet /\ Len(ops) = MaxOps) => PrintT("GEN|" \o ToJson([h |-> hist]))
=============================================================================
