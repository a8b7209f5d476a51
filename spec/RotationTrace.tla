--------------------------- MODULE RotationTrace ---------------------------
(***************************************************************************)
(* Monitor for recorded runs of the real rotation loop on a virtual clock  *)
(* (seconds).  Same quantities as Rotation.tla, per backend: birth of the  *)
(* current key, time lost to stalled publication; pend is the publication  *)
(* that has to happen next.                                                *)
(*                                                                         *)
(* Events: [k, b, at, ok, cur], k = "rotate" | "ub" | "kexub" (published   *)
(* by a call in between) | "purge" | "end".  cur: the uploaded bundle is   *)
(* the current local one; at the end: what is published is.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Grace == 60
Slack == 30       \* "a minute or so"
R0 == 60
RMax == 3600
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b) == a - b <= 1 /\ b - a <= 1

VARIABLES t, l, birth, lost, loaded, pend
vars == <<t, l, birth, lost, loaded, pend>>
NoPend == [b |-> "-", due |-> 0, delay |-> 0]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ birth = [b \in DOMAIN Traces[t].ages |-> Traces[t].start - Traces[t].ages[b]]
        /\ lost = [b \in DOMAIN Traces[t].ages |-> IF Traces[t].ages[b] > Traces[t].period THEN Traces[t].ages[b] - Traces[t].period ELSE 0]
        /\ loaded = DOMAIN Traces[t].ages
        /\ pend = NoPend

\* a publication that fails costs everybody the delay until the next attempt
Stall(d) == [b \in DOMAIN lost |-> lost[b] + d]
Late(P, at) == \E b \in loaded : at - birth[b] > P + Grace + Slack + lost[b]

Clauses(ev, P) ==
    {<<"rot.late", ~Late(P, ev.at)>>,
     <<"rot.retry", pend.b # "-" => ev.at <= pend.due + 1>>}
    \cup CASE ev.k = "rotate" -> {<<"rot.early", ev.at - birth[ev.b] >= P>>,
                                  <<"rot.stalled", pend = NoPend>>,
                                  <<"rot.purged", ev.b \in loaded>>}
           [] ev.k = "ub" -> {<<"rot.purged", ev.b \in loaded>>,
                              <<"rot.retry", pend.b = ev.b => Near(ev.at, pend.due)>>,
                              <<"rot.content", ev.cur>>}
           [] ev.k = "kexub" -> {<<"rot.content", ev.cur>>}
           [] ev.k = "end" -> {<<"rot.published", ev.cur>>}
           [] ev.k = "died" -> {<<"rot.died", FALSE>>}
           [] OTHER -> {}

Step ==
    /\ l <= Len(Traces[t].events)
    /\ LET ev == Traces[t].events[l]
           P == Traces[t].period
           F == {c[1] : c \in {x \in Clauses(ev, P) : ~x[2]}}
       IN  /\ \A c \in F : PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|rotation|" \o ev.k \o "|" \o c \o "|FALSE|FALSE")
           /\ CASE ev.k = "rotate" ->
                     /\ birth' = [birth EXCEPT ![ev.b] = ev.at]
                     /\ lost' = [lost EXCEPT ![ev.b] = 0]
                     /\ pend' = [b |-> ev.b, due |-> ev.at, delay |-> R0]
                     /\ UNCHANGED loaded
                [] ev.k = "ub" ->
                     /\ pend' = IF pend.b # ev.b THEN pend
                                ELSE IF ev.ok THEN NoPend
                                ELSE [b |-> ev.b, due |-> ev.at + pend.delay, delay |-> Min2(2 * pend.delay, RMax)]
                     /\ lost' = IF pend.b = ev.b /\ ~ev.ok THEN Stall(pend.delay) ELSE lost
                     /\ UNCHANGED <<birth, loaded>>
                [] ev.k = "purge" ->
                     /\ loaded' = loaded \ {ev.b}
                     /\ pend' = IF pend.b = ev.b THEN NoPend ELSE pend
                     /\ UNCHANGED <<birth, lost>>
                [] OTHER -> UNCHANGED <<birth, lost, loaded, pend>>
    /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ UNCHANGED <<t, birth, lost, loaded, pend>>
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
