-------------------------------- MODULE E2E --------------------------------
(***************************************************************************)
(* Several devices running the library, exchanging messages over a network *)
(* that delays, loses, reorders and duplicates (C27).  Composition of the  *)
(* symbolic ratchet of Omemo.tla with itself: every device keeps a session *)
(* row per other device.  One backend.                                     *)
(*                                                                         *)
(* Checked: a message whose session is still the receiver's current one is *)
(* decryptable at its first and not at its second delivery; key exchanges  *)
(* are sent until the session is confirmed; sessions converge.             *)
(* With recording on, the module generates the histories that are run on   *)
(* real devices with the real cryptographic backends.                      *)
(***************************************************************************)
EXTENDS Omemo, Json

CONSTANTS Devices, MaxEvents, MaxMsgs, Record, Dups, Restarts, Purges, MaxPending, RestartEvery, Burst, Window
Calm(k) == k % RestartEvery = 0
\* the first Burst events of every Window events are messages of one sender (simulation only)
Bursty(k) == k % Window < Burst

VARIABLES ses,   \* [i -> [j -> session row or <<>>]]
          seenp, \* [i -> [j -> set of <<e, n>>]]
          net,   \* messages: [ev, from, to, sid, e, n, kex, empty]
          dlv,   \* delivered: {<<ev, to>>}
          sync, queue, gone, evno, hist, bad
vars == <<ses, seenp, net, dlv, sync, queue, gone, evno, hist, bad>>

Others(i) == Devices \ {i}

Init == /\ ses = [i \in Devices |-> [j \in Devices |-> <<>>]]
        /\ seenp = [i \in Devices |-> [j \in Devices |-> {}]]
        /\ net = {} /\ dlv = {} /\ evno = 0 /\ hist = <<>> /\ bad = {}
        /\ sync = [i \in Devices |-> FALSE]
        /\ queue = [i \in Devices |-> {}]
        /\ gone = {}                       \* <<device, sid>>: replaced at this device

H(x) == hist' = IF Record THEN Append(hist, x) ELSE <<>>
NewA(i, j, k) == <<"n", j, j, k, "A", FALSE, j, i, "pk", "spk", 1, 1, 0, 0>>
Msg(ev, i, s, empty) == [ev |-> ev, from |-> i, to |-> s[3], sid |-> s[4], e |-> s[11], n |-> s[12], kex |-> NeedsKex(s), empty |-> empty]
Tick == evno' = evno + 1 /\ evno < MaxEvents
ev == evno + 1

\* names for new sessions: one per pair and event
Name(i, j) == <<i, j, ev>>
Send(i) ==
    /\ Tick
    /\ (Bursty(evno) /\ evno % Window # 0) => hist[Len(hist)][2] = i
    /\ Cardinality(net) < MaxMsgs
    /\ Cardinality({m \in net : <<m.ev, m.to>> \notin dlv}) <= MaxPending
    /\ LET next(j) == IF ses[i][j] = <<>> THEN NewA(i, j, Name(i, j)) ELSE Sent(ses[i][j])
       IN  /\ ses' = [ses EXCEPT ![i] = [j \in Devices |-> IF j = i THEN <<>> ELSE next(j)]]
           /\ net' = net \cup {Msg(ev, i, next(j), FALSE) : j \in Others(i)}
    /\ H(<<"send", i>>)
    /\ UNCHANGED <<seenp, dlv, sync, queue, gone, bad>>

KeyOf(m) == <<m.from, m.to, m.sid, m.e, m.n, "k", TRUE>>  \* shape of key material as in Omemo.tla: [3]=sid, [4]=e, [5]=n, [7]=intact
Decryptable(j, m) ==
    LET s == ses[j][m.from]
    IN  /\ s # <<>> /\ m.sid = s[4] /\ m.e % 2 # Parity(s) /\ <<m.e, m.n>> \notin seenp[j][m.from]
Deliver(m) ==
    LET j == m.to
        i == m.from
        s == ses[j][i]
        same == s # <<>> /\ s[4] = m.sid
        again == <<m.ev, j>> \in dlv
        build == <<"n", i, i, m.sid, "P", FALSE, i, i, "pk", "spk", 2, 0, 1, m.n>>
        \* a key exchange for a session that was replaced: the pre key is gone (live) or still there (catching up)
        outcome == IF same THEN (IF Decryptable(j, m) THEN "ok" ELSE "fail")
                   ELSE IF ~m.kex THEN "fail"
                   ELSE IF <<j, m.sid>> \in gone THEN "fail" ELSE "ok"
        s1 == IF same THEN Received(s, KeyOf(m)) ELSE build
        reply == m.kex \/ s1[14] > Staleness
        s2 == Sent(s1)
    IN  /\ Tick
        /\ ~Bursty(evno)
        /\ again => Dups /\ Calm(evno + 1)
        /\ dlv' = dlv \cup {<<m.ev, j>>}
        \* the property
        /\ bad' = bad \cup (IF ~again /\ <<j, m.sid>> \notin gone /\ outcome # "ok" /\ (m.kex \/ same) THEN {<<"first", m>>} ELSE {})
                      \cup (IF again /\ same /\ outcome = "ok" THEN {<<"again", m>>} ELSE {})
                      \cup (IF ~again /\ ~same /\ ~m.kex /\ <<j, m.sid>> \notin gone THEN {<<"lost kex", m>>} ELSE {})
        /\ IF outcome = "fail" THEN UNCHANGED <<ses, seenp, net, queue, gone>>
           ELSE /\ seenp' = [seenp EXCEPT ![j][i] = (IF same THEN @ ELSE {}) \cup {<<m.e, m.n>>}]
                /\ gone' = IF ~same /\ s # <<>> THEN gone \cup {<<j, s[4]>>} ELSE gone
                /\ IF ~reply THEN ses' = [ses EXCEPT ![j][i] = s1] /\ UNCHANGED <<net, queue>>
                   ELSE IF sync[j] THEN /\ ses' = [ses EXCEPT ![j][i] = s1]
                                        /\ queue' = [queue EXCEPT ![j] = @ \cup {i}]
                                        /\ UNCHANGED net
                   ELSE /\ ses' = [ses EXCEPT ![j][i] = s2]
                        /\ net' = net \cup {Msg(ev, j, s2, TRUE)}
                        /\ UNCHANGED queue
        /\ H(<<"dlv", j, m.ev>>)
        /\ UNCHANGED sync

Restart(i) ==
    /\ Restarts /\ Tick /\ Calm(evno) /\ ~Bursty(evno)
    /\ sync' = [sync EXCEPT ![i] = TRUE]
    /\ H(<<"restart", i>>)
    /\ UNCHANGED <<ses, seenp, net, dlv, queue, gone, bad>>
After(i) ==
    /\ sync[i] /\ Tick /\ ~Bursty(evno)
    /\ sync' = [sync EXCEPT ![i] = FALSE]
    /\ LET Q == {j \in queue[i] : ses[i][j] # <<>>}
       IN  /\ ses' = [ses EXCEPT ![i] = [j \in Devices |-> IF j \in Q THEN Sent(ses[i][j]) ELSE ses[i][j]]]
           /\ net' = net \cup {Msg(ev, i, Sent(ses[i][j]), TRUE) : j \in Q}
    /\ queue' = [queue EXCEPT ![i] = {}]
    /\ H(<<"after", i>>)
    /\ UNCHANGED <<seenp, dlv, gone, bad>>

\* the application forgets an account: its sessions are gone, the next message builds new ones
Account(i) == IF i = "a" THEN {"a"} ELSE Devices \ {"a"}
Purge(i, j) ==
    /\ Purges /\ Tick /\ Calm(evno) /\ ~Bursty(evno)
    /\ Account(i) # Account(j) /\ j = (CHOOSE k \in Account(j) : TRUE)
    /\ \E k \in Account(j) : ses[i][k] # <<>>
    /\ LET G == {k \in Account(j) : ses[i][k] # <<>>}
       IN  /\ ses' = [ses EXCEPT ![i] = [k \in Devices |-> IF k \in G THEN <<>> ELSE ses[i][k]]]
           /\ seenp' = [seenp EXCEPT ![i] = [k \in Devices |-> IF k \in G THEN {} ELSE seenp[i][k]]]
           /\ gone' = gone \cup {<<i, ses[i][k][4]>> : k \in G}
           /\ queue' = [queue EXCEPT ![i] = @ \ Account(j)]
    /\ H(<<"purge", i, j>>)
    /\ UNCHANGED <<net, dlv, sync, bad>>

Next == \/ \E i \in Devices : Send(i) \/ Restart(i) \/ After(i) \/ \E j \in Devices : Purge(i, j)
        \/ \E m \in net : Deliver(m)
Spec == Init /\ [][Next]_vars

Reliable == bad = {}
\* whoever received something over a session knows that it is established
Confirmed == \A i, j \in Devices : (ses[i][j] # <<>> /\ seenp[i][j] # {} /\ ses[i][j][5] = "A") => ses[i][j][6]
\* at most one side of a session considers itself the initiator
Roles == \A i, j \in Devices : (ses[i][j] # <<>> /\ ses[j][i] # <<>> /\ ses[i][j][4] = ses[j][i][4]) => ses[i][j][5] # ses[j][i][5]
\* no two messages of one device for another share a position
Distinct == \A m, k \in net : (m.from = k.from /\ m.to = k.to /\ m.sid = k.sid /\ m.e = k.e /\ m.n = k.n) => m = k
Emit == (Record /\ evno = MaxEvents) => PrintT("GEN|" \o ToJson([h |-> hist]))
=============================================================================
