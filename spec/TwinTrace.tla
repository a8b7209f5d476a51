----------------------------- MODULE TwinTrace -----------------------------
(***************************************************************************)
(* C31: a restart is invisible.  Two executions of the real library are    *)
(* compared call by call: one that keeps running with a cached storage,    *)
(* and one that is restarted (loaded again with the same backends on the   *)
(* persisted data) between the calls, with or without storage cache.       *)
(* This is the self-composition of Client.tla with the stuttering action   *)
(* "load again": in every published state loading again leaves everything  *)
(* persisted and published as it is (Client.tla, check C31.idle), and all  *)
(* other transition functions depend on persisted data only (and on the    *)
(* history synchronization mode, which the harness restores).              *)
(*                                                                         *)
(* C28: what the application does with collections it has passed to the    *)
(* library, or got from it, is invisible.  Compared are two executions of  *)
(* the same history, one of which clears and fills them after each call.   *)
(*                                                                         *)
(* Input: {id, k, events: <<[a, b, ins]>>}: the kind ("tw": C31, "al":     *)
(* C28), the calls of both executions and, per call, the loads inserted    *)
(* before it in the second one.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<t, l>>

S(q) == {q[i] : i \in DOMAIN q}
Bag(q) == LET R == S(q) IN [x \in R |-> Cardinality({i \in DOMAIN q : q[i] = x})]

State(p) == [f \in DOMAIN p |-> IF f \in {"id", "ik"} THEN p[f] ELSE S(p[f])]
Info(i) == <<S(i.dev), S(i.ns), S(i.act)>>
Msg(m) == <<m.ns, m.sj, m.sd, m.empty, m.pt, m.pok, Bag(m.keys)>>
Res(r) == <<Info(r.info), r.own, S(r.scl), S(r.unsucc), {Msg(r.msgs[i]) : i \in DOMAIN r.msgs}, S(r.errs), S(r.jids), r.pt, r.kid>>
One(e) == <<e.k, e.ns, e.ok, e.jid, e.dev, e.dig, S(e.rows), e.id, Msg(e.msg), Info(e.info)>>
\* calls may publish and send in any order
Effs(q) == Bag([i \in DOMAIN q |-> One(q[i])])

Publications(q) == {i \in DOMAIN q : q[i].k \in {"ul", "ub", "db", "send", "tq"}}

Clauses(e) ==
    {<<".op", e.a.op = e.b.op>>,
     <<".x", e.a.x = e.b.x>>,
     <<".r", Res(e.a.r) = Res(e.b.r)>>,
     <<".eff", Effs(e.a.eff) = Effs(e.b.eff)>>,
     <<".state", State(e.a.post) = State(e.b.post)>>}
    \cup UNION {{<<".load", e.ins[i].x = "ok">>,
                 <<".idle", State(e.ins[i].pre) = State(e.ins[i].post)>>,
                 <<".quiet", Publications(e.ins[i].eff) = {}>>} : i \in DOMAIN e.ins}

Init == t \in DOMAIN Traces /\ l = 1
Failing(e) == {c[1] : c \in {x \in Clauses(e) : ~x[2]}}
Step == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l]
               F == Failing(e)
           IN  /\ \A c \in F : PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o e.a.op \o "|" \o e.a.x \o "|" \o Traces[t].k \o c
                                      \o "|FALSE|FALSE|FALSE")
               \* once they differ, everything may
               /\ l' = IF F = {} THEN l + 1 ELSE Len(Traces[t].events) + 1
        /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ t' = t
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
