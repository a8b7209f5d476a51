---------------------------- MODULE StorageTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of omemo.storage.Storage objects against      *)
(* Register.tla, key by key.                                               *)
(***************************************************************************)
EXTENDS Register, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, regs
vars == <<t, l, regs>>

Val(q) == <<q[1], q[2], q[3]>>
O(o) == [id |-> o.id, kind |-> o.kind, typ |-> o.typ, val |-> Val(o.val)]
Apply(r, ev) == CASE ev.k = "inv" -> Invoke(r, O(ev.o))
                  [] ev.k = "res" -> Respond(r, O(ev.o), ev.x)
                  [] ev.k = "quiet" -> Quiesce(r, Val(ev.o.val))
\* after a deviation, go on with every world that is possible from here
Recover(ev, r) == IF ev.k = "quiet" THEN Fresh(Val(ev.o.val)) ELSE [r EXCEPT !.p = r.p \ {O(ev.o)}, !.w = {Forget(c, ev.o.id) : c \in r.w}]
Clause(ev) == CASE ev.k = "quiet" -> "cache.stored" [] ev.x = "!Other" -> "cache.error" [] ev.o.kind = "load" -> "cache.load" [] OTHER -> "cache.write"

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ regs = [k \in DOMAIN Traces[t].init |-> Fresh(Val(Traces[t].init[k]))]
Step == /\ l <= Len(Traces[t].events)
        /\ LET ev == Traces[t].events[l]
               r == Apply(regs[ev.key], ev)
           IN  IF r.w # {} THEN regs' = [regs EXCEPT ![ev.key] = r]
               ELSE /\ PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o ev.o.kind \o "|" \o ev.k \o "|" \o Clause(ev) \o "|FALSE|FALSE")
                    /\ regs' = [regs EXCEPT ![ev.key] = Recover(ev, regs[ev.key])]
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ UNCHANGED <<t, regs>>
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
