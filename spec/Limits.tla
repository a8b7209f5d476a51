------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Backend configuration: limits of skipped message keys (C29).            *)
(* A configuration is a pair of the per-session limit s and the            *)
(* per-message limit m; -1 stands for "not given".                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Unset == -1
Session(s) == IF s = Unset THEN 1000 ELSE s
Message(s, m) == IF m = Unset THEN Session(s) ELSE m
Valid(s, m) == \/ m = Unset
               \/ m = 0 /\ Session(s) = 0
               \/ m >= 1 /\ m <= Session(s)

\* the configurations that are tried on the implementation
Vals(k) == (0..k) \cup {999, 1000, 1001, 2147483647}
Configs(k) == {<<s, m>> : s \in Vals(k) \cup {Unset}, m \in Vals(k) \cup {Unset}}

(***************************************************************************)
(* Consistency of the definition itself: reported values of an accepted    *)
(* configuration are themselves an accepted configuration; zero means that *)
(* nothing may be skipped at all.                                          *)
(***************************************************************************)
Closed(k) == \A c \in Configs(k) : Valid(c[1], c[2]) =>
                /\ Valid(Session(c[1]), Message(c[1], c[2]))
                /\ Message(c[1], c[2]) <= Session(c[1])
                /\ Message(c[1], c[2]) = 0 <=> Session(c[1]) = 0

VARIABLES t, l
vars == <<t, l>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Clauses(ev) ==
    {<<"accept", ev.ok = Valid(ev.s, ev.m)>>,
     <<"error", ev.ok \/ ev.x = "ValueError">>,
     <<"report", ev.ok => ev.rs = Session(ev.s) /\ ev.rm = Message(ev.s, ev.m)>>}

Init == t \in DOMAIN Traces /\ l = 1
Step == /\ l <= Len(Traces[t].events)
        /\ LET ev == Traces[t].events[l]
               F == {c[1] : c \in {x \in Clauses(ev) : ~x[2]}}
           IN  \A c \in F : PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|limits|" \o ev.x \o "|" \o c \o "|FALSE|FALSE")
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ t' = t
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars

\* generator: prints every configuration once
GenInit == t = 0 /\ l = 0 /\ Assert(Closed(12), "Closed")
              /\ \A c \in Configs(IF "LIMITS_K" \in DOMAIN IOEnv THEN atoi(IOEnv.LIMITS_K) ELSE 12) : PrintT("GEN|" \o ToJson([s |-> c[1], m |-> c[2]]))
=============================================================================
