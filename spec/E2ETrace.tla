------------------------------ MODULE E2ETrace ------------------------------
(***************************************************************************)
(* Checks histories of real devices (real backends, real cryptography)     *)
(* against the contract of E2E.tla.                                        *)
(* Events: [op, i, m, x, pt, kid, msgs, cur]; msgs: messages put on the    *)
(* network [m, to, ns, sid, kex, pk, empty, pt, kid]; cur: the sessions of *)
(* device i afterwards, <<other device, ns, sid>>.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
S(q) == {q[k] : k \in DOMAIN q}
VARIABLES t, l, cur, gone, sent, dlv, pks, made
vars == <<t, l, cur, gone, sent, dlv, pks, made>>

Devs == S(Traces[t].devices)
Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ cur = {} /\ gone = {} /\ sent = {} /\ dlv = {} /\ pks = {} /\ made = {}

\* <<i, j, ns, sid>>: device i's session with j
CurOf(ev) == {<<ev.i, c[1], c[2], c[3]>> : c \in S(ev.cur)}
New(ev) == {[m |-> q.m, from |-> ev.i, to |-> q.to, ns |-> q.ns, sid |-> q.sid, kex |-> q.kex, pk |-> q.pk, empty |-> q.empty,
             pub |-> q.pub, pt |-> q.pt, kid |-> q.kid] : q \in S(ev.msgs)}

Clauses(ev) ==
    LET own == {c \in cur : c[1] = ev.i}
        nw == New(ev)
        common == {<<"e2e.session", ev.op \in {"restart"} => CurOf(ev) = own>>,
                   \* a new session is built from the other device's current bundle
                   <<"e2e.bundle", \A q \in nw : (q.kex /\ <<ev.i, q.to, q.ns, q.sid>> \notin cur \cup made) => q.pub>>,
                   <<"e2e.empty", \A q \in nw : q.empty <=> ev.op # "send">>}
    IN  common \cup
        CASE ev.op = "send" ->
                {<<"e2e.send", ev.x = "ok">>,
                 <<"e2e.addr", ev.x = "ok" => {q.to : q \in nw} = Devs \ {ev.i} /\ Len(ev.msgs) = Cardinality(nw)
                                              /\ \A q, r \in nw : q.to = r.to => q = r>>}
          [] ev.op = "dlv" /\ {q \in sent : q.m = ev.m /\ q.to = ev.i} # {} ->
                LET m == CHOOSE q \in sent : q.m = ev.m /\ q.to = ev.i
                    again == <<ev.m, ev.i>> \in dlv
                    here == {c[4] : c \in {d \in own : d[2] = m.from /\ d[3] = m.ns}}
                    replaced == <<ev.i, m.from, m.ns, m.sid>> \in gone
                    same == m.sid \in here
                    \* its one-time key was already used up by another key exchange
                    spent == m.kex /\ ~same /\ <<ev.i, m.ns, m.pk>> \in pks
                IN  {<<"e2e.first", (~again /\ ~replaced /\ ~spent) => ev.x = "ok">>,
                     <<"e2e.value", ev.x = "ok" => ev.pt = m.pt /\ ev.kid = m.kid>>,
                     <<"e2e.again", (again /\ ~replaced) => ev.x # "ok">>,
                     <<"e2e.session", ev.x = "ok" => <<ev.i, m.from, m.ns, m.sid>> \in CurOf(ev)>>,
                     <<"e2e.session", ev.x # "ok" => CurOf(ev) = own>>,
                     <<"e2e.kex", (~again /\ ~replaced) => (m.kex \/ same)>>,
                     <<"e2e.error", ev.x \in {"ok", "DecryptionFailed", "KeyExchangeFailed", "NoSession"}>>}
          [] ev.op = "purge" -> {<<"e2e.call", ev.x = "ok">>,
                                 <<"e2e.purge", CurOf(ev) = {c \in own : c[2] \notin S(ev.gone)}>>}
          [] ev.op \in {"after", "restart"} -> {<<"e2e.call", ev.x = "ok">>}
          [] OTHER -> {}

Step ==
    /\ l <= Len(Traces[t].events)
    /\ LET ev == Traces[t].events[l]
           F == {c[1] : c \in {x \in Clauses(ev) : ~x[2]}}
           now == CurOf(ev)
           before == {c \in cur : c[1] = ev.i}
           M == {q \in sent : ev.op = "dlv" /\ q.m = ev.m /\ q.to = ev.i}
       IN  /\ \A c \in F : PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o ev.op \o "|" \o ev.x \o "|" \o c \o "|FALSE|FALSE")
           /\ cur' = (cur \ before) \cup now
           /\ gone' = gone \cup (before \ now)
           /\ sent' = sent \cup New(ev)
           /\ dlv' = IF ev.op = "dlv" /\ ev.x = "ok" THEN dlv \cup {<<ev.m, ev.i>>} ELSE dlv
           /\ pks' = IF ev.x = "ok" THEN pks \cup {<<ev.i, q.ns, q.pk>> : q \in {z \in M : z.kex}} ELSE pks
           /\ made' = made \cup now
    /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ UNCHANGED <<t, cur, gone, sent, dlv, pks, made>>
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
