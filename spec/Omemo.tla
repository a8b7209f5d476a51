------------------------------- MODULE Omemo -------------------------------
(***************************************************************************)
(* Specification of the observable behaviour of python-omemo's core        *)
(* (omemo.SessionManager) for one client device.                           *)
(*                                                                         *)
(* The state is relational: every component is a set of tuples, exactly    *)
(* what the client persists (device cache, pins, trust, queue, sessions,   *)
(* pre keys) plus the published data of the server (device lists,          *)
(* bundles).  Every API operation is a function                            *)
(*       XExp(v, g, a, h)  ->  record                                      *)
(* of the state v, the volatile state g of the running library, the        *)
(* arguments a and a hint h (the observed state afterwards, used only to   *)
(* resolve the operation's legitimate freedom: fresh names, which of       *)
(* several bundles an identity key was learned from).  The same functions  *)
(* are used by the exhaustively checked models (MC_*.tla), by the behaviour*)
(* generator (Gen.tla) and by the trace specification (Trace.tla) that     *)
(* binds them to the implementation.                                       *)
(*                                                                         *)
(* Rows                                                                    *)
(*   dev  <<jid, dev>>                    known devices                    *)
(*   ns   <<jid, dev, ns>>                backends that ever listed it     *)
(*   act  <<jid, dev, ns, BOOLEAN>>       activity per backend             *)
(*   lab  <<jid, dev, label>>             "~" = no label                   *)
(*   pin  <<jid, dev, ik>>                pinned identity key              *)
(*   has  <<jid, dev, field>>             which device fields are stored   *)
(*   tr   <<jid, ik, level>>              custom trust levels              *)
(*   qj   <<ns, jid>>, qd <<ns,jid,dev>>  deferred replies                 *)
(*   ses  <<ns, jid, dev, sid, init, confirmed, peer ik, kex ik, kex pk,   *)
(*          kex spk, send epoch, send chain, recv epoch, recv chain>>      *)
(*   seen <<ns, jid, dev, epoch, n>>      message keys already used up     *)
(*   pkv  <<ns, number of offered pre keys>>                               *)
(*   pki  <<ns, id, "v"|"h"|"s"|"o">>     offered / hidden pre keys that   *)
(*                                        matter, current/old signed keys  *)
(*   bd   <<ns, digest>>                  digest of the local bundle       *)
(*   sl   <<ns, jid, dev, label>>         published device lists           *)
(*   sb   <<ns, jid, dev, ik, digest, usable, pk, spk>> published bundles  *)
(*   sbp  <<ns, pk>>                      pre keys in own published bundles*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == "~"
Staleness == 53
Stock == 100

SeqRange(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b

\* Custom trust levels of the application: Trusted, Distrusted, Undecided, unknown (X).  What a level means may depend on
\* the device: "auto" trusts the own devices and leaves others undecided, "first" trusts device d1 only.
Core(level, own, j, d) ==
    CASE level \in {"trusted", "verified"} -> "T"
      [] level \in {"blocked", "revoked"} -> "D"
      [] level \in {"undecided", "new"} -> "U"
      [] level = "auto" -> IF j = own THEN "T" ELSE "U"
      [] level = "first" -> IF d = "d1" THEN "T" ELSE "D"
      [] OTHER -> "X"

(***************************************************************************)
(* Accessors                                                               *)
(***************************************************************************)
Devs(v, j) == {r[2] : r \in {x \in v.dev : x[1] = j}}
NsOf(v, j, d) == {r[3] : r \in {x \in v.ns : x[1] = j /\ x[2] = d}}
ActKeys(v, j, d) == {r[3] : r \in {x \in v.act : x[1] = j /\ x[2] = d}}
ActiveNs(v, j, d) == {r[3] : r \in {x \in v.act : x[1] = j /\ x[2] = d /\ x[4]}} \cap NsOf(v, j, d)
Pins(v, j, d) == {r[3] : r \in {x \in v.pin : x[1] = j /\ x[2] = d}}
Labels(v, j, d) == {r[3] : r \in {x \in v.lab : x[1] = j /\ x[2] = d}}
Pinned(v, j, d) == Pins(v, j, d) # {}
Pin(v, j, d) == CHOOSE k \in Pins(v, j, d) : TRUE
Label(v, j, d) == IF Labels(v, j, d) = {} THEN "!missing" ELSE CHOOSE l \in Labels(v, j, d) : TRUE
Level(v, g, j, k) == LET R == {x \in v.tr : x[1] = j /\ x[2] = k}
                     IN  IF R = {} THEN g.und ELSE (CHOOSE r \in R : TRUE)[3]
SesRows(v, n, j, d) == {r \in v.ses : r[1] = n /\ r[2] = j /\ r[3] = d}
HasSes(v, n, j, d) == SesRows(v, n, j, d) # {}
Ses(v, n, j, d) == CHOOSE r \in SesRows(v, n, j, d) : TRUE
PkCount(v, n) == LET R == {x \in v.pkv : x[1] = n} IN IF R = {} THEN 0 ELSE (CHOOSE r \in R : TRUE)[2]
LocalDig(v, n) == LET R == {x \in v.bd : x[1] = n} IN IF R = {} THEN "!none" ELSE (CHOOSE r \in R : TRUE)[2]
BunRows(v, n, j, d) == {r \in v.sb : r[1] = n /\ r[2] = j /\ r[3] = d}
ListOf(v, n, j) == {<<r[3], r[4]>> : r \in {x \in v.sl : x[1] = n /\ x[2] = j}}
ListDevs(L) == {r[1] : r \in L}
Loaded(g) == SeqRange(g.loaded)
SelfListed(v, g, n) == v.id \in ListDevs(ListOf(v, n, g.own))
OwnBunDig(v, g, n) == LET R == BunRows(v, n, g.own, v.id) IN IF R = {} THEN "!none" ELSE (CHOOSE r \in R : TRUE)[5]

\* effective queue: devices of accounts on the backend's queue
Queue(v) == {r \in v.qd : <<r[1], r[2]>> \in v.qj}

(***************************************************************************)
(* Faults: static per call.  f.dl {<<ns,jid>>}, f.ul/ub/db {ns},           *)
(* f.send {<<ns,jid>>}, f.dlb {<<ns,jid,dev,kind>>}                        *)
(***************************************************************************)
BState(v, f, n, j, d) ==
    LET K == {x[4] : x \in {y \in f.dlb : y[1] = n /\ y[2] = j /\ y[3] = d}}
    IN  CASE "fail" \in K -> "BundleDownloadFailed"
          [] "nf" \in K -> "BundleNotFound"
          [] "unk" \in K -> "UnknownNamespace"
          [] OTHER -> IF BunRows(v, n, j, d) = {} THEN "BundleNotFound" ELSE "ok"
Bun(v, n, j, d) == CHOOSE r \in BunRows(v, n, j, d) : TRUE

(***************************************************************************)
(* Device information: learning identity keys, dropping backend support    *)
(* without activity information                                            *)
(***************************************************************************)
Learnable(v, f, j, d) ==
    IF Pinned(v, j, d) THEN {}
    ELSE {Bun(v, n, j, d)[4] : n \in {x \in NsOf(v, j, d) : BState(v, f, x, j, d) = "ok"}}
LearnedPins(v, f, j, hp) ==
    {<<j, d, LET L == Learnable(v, f, j, d)
                 S == {k \in L : <<j, d, k>> \in hp}
             IN  IF S # {} THEN CHOOSE k \in S : TRUE ELSE CHOOSE k \in L : TRUE>> :
        d \in {x \in Devs(v, j) : Learnable(v, f, j, x) # {}}}
InfoView(v, f, j, hp) ==
    LET p == v.pin \cup LearnedPins(v, f, j, hp)
        v1 == [v EXCEPT !.pin = p]
    IN  [v1 EXCEPT !.ns = {r \in v1.ns : (r[1] = j /\ r[2] \in Devs(v1, j) /\ Pinned(v1, j, r[2]))
                                          => r[3] \in ActKeys(v1, j, r[2])}]
\* everything a query may learn (for operations that may or may not query)
MayLearn(v, f, j) == UNION {{<<j, d, k>> : k \in Learnable(v, f, j, d)} : d \in Devs(v, j)}

\* the information reported about account j in a view produced by InfoView
Reported(v, j) == {d \in Devs(v, j) : Pinned(v, j, d)}
InfoRow(v, g, j, d) == <<j, d, Pin(v, j, d), Level(v, g, j, Pin(v, j, d)), Label(v, j, d)>>
InfoNs(v, j, D) == {r \in v.ns : r[1] = j /\ r[2] \in D}
InfoAct(v, j, D) == {r \in v.act : r[1] = j /\ r[2] \in D}

(***************************************************************************)
(* Device list updates: L is a set of <<dev, label>>                       *)
(***************************************************************************)
\* the list that is processed (and, if Republish, published)
WithSelf(v, g, n, j, L) ==
    IF j = g.own /\ n \in Loaded(g) /\ v.id \notin ListDevs(L) THEN L \cup {<<v.id, Label(v, j, v.id)>>} ELSE L
Republish(v, g, n, j, L) == j = g.own /\ n \in Loaded(g) /\ v.id \notin ListDevs(L)

DLU(v, n, j, L) ==
    LET known == Devs(v, j)
        listed == ListDevs(L)
        new == listed \ known
        keepRow(r) == ~(r[1] = j /\ r[2] \in new)
    IN  [v EXCEPT
          !.dev = v.dev \cup {<<j, d>> : d \in new},
          !.ns = {r \in v.ns : keepRow(r)} \cup {<<j, d, n>> : d \in listed},
          !.act = {r \in v.act : keepRow(r) /\ ~(r[1] = j /\ r[3] = n /\ r[2] \in known
                                                  /\ (r[2] \in listed \/ n \in NsOf(v, j, r[2])))}
                    \cup {<<j, d, n, TRUE>> : d \in listed}
                    \cup {<<j, d, n, FALSE>> : d \in {x \in known \ listed : n \in NsOf(v, j, x)}},
          !.lab = {r \in v.lab : keepRow(r) /\ ~(r[1] = j /\ \E x \in L : x[1] = r[2] /\ x[2] # None)}
                    \cup {<<j, x[1], x[2]>> : x \in {y \in L : y[1] \in new \/ y[2] # None}},
          !.has = v.has \cup {<<j, d, x>> : d \in new, x \in {"ns", "act", "lab"}}]

SetList(v, g, n, L) == [v EXCEPT !.sl = {r \in v.sl : ~(r[1] = n /\ r[2] = g.own)} \cup {<<n, g.own, x[1], x[2]>> : x \in L}]

\* one refresh/update of the list of account j; u = TRUE if the list gets published
UpdateStep(v, g, n, j, L) ==
    LET L2 == WithSelf(v, g, n, j, L)
        v1 == DLU(v, n, j, L2)
    IN  IF Republish(v, g, n, j, L) THEN SetList(v1, g, n, L2) ELSE v1

RECURSIVE FoldRefresh(_, _, _, _)
FoldRefresh(v, g, nss, j) ==
    IF nss = <<>> THEN v ELSE FoldRefresh(UpdateStep(v, g, Head(nss), j, ListOf(v, Head(nss), j)), g, Tail(nss), j)

(***************************************************************************)
(* Result records.  x: allowed outcomes; v: the state afterwards; ul, ub,  *)
(* db: backends whose list/bundle must have been (un)published; bdchg:     *)
(* backends whose local bundle may change; part: the operation may have    *)
(* been carried out partially; sends: key rows of required automated       *)
(* messages <<ns, jid, dev, sid, e, n, kex, kik, kpk, kspk>>               *)
(***************************************************************************)
Exp0(v) == [x |-> {"ok"}, v |-> v, ul |-> {}, ub |-> {}, db |-> {}, bdchg |-> {}, part |-> FALSE,
            sends |-> {}, tq |-> {}, asked |-> FALSE, keys |-> {}, errs |-> {}, nojids |-> {},
            mid |-> {}, going |-> {}, sel |-> {}, untrusted |-> {}, hit |-> {}]
Fail(v, names) == [Exp0(v) EXCEPT !.x = names]

(***************************************************************************)
(* Device list operations, labels, trust, queries                          *)
(***************************************************************************)
UpdateExp(v, g, a, h) ==
    IF a.ns \notin Loaded(g) THEN Fail(v, {"UnknownNamespace"})
    ELSE IF Republish(v, g, a.ns, a.jid, a.rows) /\ a.ns \in a.f.ul THEN
        [Fail(v, {"DeviceListUploadFailed"}) EXCEPT !.hit = {"ul"}]
    ELSE [Exp0(UpdateStep(v, g, a.ns, a.jid, a.rows)) EXCEPT
            !.ul = IF Republish(v, g, a.ns, a.jid, a.rows) THEN {a.ns} ELSE {}]

RefreshExp(v, g, a, h) ==
    LET L == ListOf(v, a.ns, a.jid)
    IN  IF a.ns \notin Loaded(g) THEN
            Fail(v, {"UnknownNamespace"} \cup IF <<a.ns, a.jid>> \in a.f.dl THEN {"DeviceListDownloadFailed"} ELSE {})
        ELSE IF <<a.ns, a.jid>> \in a.f.dl THEN Fail(v, {"DeviceListDownloadFailed"})
        ELSE UpdateExp(v, g, [ns |-> a.ns, jid |-> a.jid, rows |-> L, f |-> a.f], h)

RefreshAllExp(v, g, a, h) ==
    LET up == {n \in Loaded(g) : Republish(v, g, n, a.jid, ListOf(v, n, a.jid))}
        hit == (IF \E n \in Loaded(g) : <<n, a.jid>> \in a.f.dl THEN {"DeviceListDownloadFailed"} ELSE {})
               \cup (IF up \cap a.f.ul # {} THEN {"DeviceListUploadFailed"} ELSE {})
        ok == [Exp0(FoldRefresh(v, g, g.loaded, a.jid)) EXCEPT !.ul = up]
    IN  IF hit = {} THEN ok ELSE [ok EXCEPT !.x = hit, !.part = TRUE]

SetTrustExp(v, g, a, h) ==
    Exp0([v EXCEPT !.tr = {r \in v.tr : ~(r[1] = a.jid /\ r[2] = a.ik)} \cup {<<a.jid, a.ik, a.level>>}])

SetLabelExp(v, g, a, h) ==
    LET v1 == [v EXCEPT !.lab = {r \in v.lab : ~(r[1] = g.own /\ r[2] = v.id)} \cup {<<g.own, v.id, a.label>>}]
        v2 == [v1 EXCEPT !.sl = {r \in v.sl : ~(r[1] \in Loaded(g) /\ r[2] = g.own /\ r[3] = v.id)}
                                  \cup {<<n, g.own, v.id, a.label>> : n \in Loaded(g)}]
        hit == (IF \E n \in Loaded(g) : <<n, g.own>> \in a.f.dl THEN {"DeviceListDownloadFailed"} ELSE {})
               \cup (IF Loaded(g) \cap a.f.ul # {} THEN {"DeviceListUploadFailed"} ELSE {})
        ok == [Exp0(v2) EXCEPT !.ul = Loaded(g)]
    IN  IF hit = {} THEN ok ELSE [ok EXCEPT !.x = hit, !.part = TRUE]

InfoExp(v, g, a, h) == Exp0(InfoView(v, a.f, a.jid, h.pin))

SclRows(v, g, a) ==
    {<<n, IF HasSes(v, n, a.jid, a.dev) THEN Ses(v, n, a.jid, a.dev)[12] ELSE -1>> : n \in Loaded(g) \cap SeqRange(a.nss)}

(***************************************************************************)
(* Symbolic ratchet                                                        *)
(***************************************************************************)
\* send over a session: the next position of the sending chain
Sent(s) == [s EXCEPT ![12] = s[12] + 1]
NeedsKex(s) == s[5] = "A" /\ ~s[6]
KeyRow(s1) == <<s1[1], s1[2], s1[3], s1[4], s1[11], s1[12], NeedsKex(s1),
                IF NeedsKex(s1) THEN s1[8] ELSE None,
                IF NeedsKex(s1) THEN s1[9] ELSE None,
                IF NeedsKex(s1) THEN s1[10] ELSE None>>
\* receive key material <<jid, dev, sid, e, n, kid, intact, ...>> over a session
Parity(s) == IF s[5] = "A" THEN 1 ELSE 0
RecvOk(v, s, k) ==
    k[7] /\ k[3] = s[4] /\ k[4] % 2 # Parity(s) /\ k[4] >= 1 /\ k[5] >= 1
         /\ <<s[1], s[2], s[3], k[4], k[5]>> \notin v.seen
Received(s, k) ==
    LET s1 == IF k[4] > s[13] THEN [s EXCEPT ![13] = k[4], ![14] = k[5], ![11] = k[4] + 1, ![12] = 0]
              ELSE IF k[4] = s[13] THEN [s EXCEPT ![14] = Max2(s[14], k[5])]
              ELSE s
    IN  [s1 EXCEPT ![6] = TRUE]
PutSes(v, s, seenRows) ==
    [v EXCEPT !.ses = {r \in v.ses : ~(r[1] = s[1] /\ r[2] = s[2] /\ r[3] = s[3])} \cup {s}, !.seen = seenRows]
\* sessions built anew from a key exchange that was processed before (possible while its pre key is only hidden): their
\* sending chains start from a fresh ratchet key, so positions given out before are different message keys
Rebuilt(v, w) == {s[4] : s \in {q \in w.ses : q[5] = "P" /\ \A r \in v.ses : r[4] # q[4]}}
OtherSeen(v, n, j, d) == {r \in v.seen : ~(r[1] = n /\ r[2] = j /\ r[3] = d)}

\* the session built from the bundle row b; its name is taken from the observed outcome
NewSid(v, h, n, j, d) ==
    IF HasSes(h, n, j, d) /\ \A r \in v.ses : r[4] # Ses(h, n, j, d)[4] THEN Ses(h, n, j, d)[4] ELSE "?"
BuiltActive(v, h, n, j, d, b) ==
    <<n, j, d, NewSid(v, h, n, j, d), "A", FALSE, b[4], v.ik, b[7], b[8], 1, 1, 0, 0>>
\* a bundle can be used for a device iff it is downloadable, well-formed and carries the pinned identity key
UseBundle(v, f, n, j, d) ==
    IF BState(v, f, n, j, d) # "ok" THEN BState(v, f, n, j, d)
    ELSE IF ~Bun(v, n, j, d)[6] THEN "KeyExchangeFailed"
    ELSE IF Bun(v, n, j, d)[4] # Pin(v, j, d) THEN "KeyExchangeFailed"
    ELSE "ok"

(***************************************************************************)
(* Encryption                                                              *)
(***************************************************************************)
RECURSIVE FoldInfo(_, _, _, _)
FoldInfo(v, f, J, hp) ==
    IF J = {} THEN v ELSE LET j == CHOOSE x \in J : TRUE IN FoldInfo(InfoView(v, f, j, hp), f, J \ {j}, hp)

FirstIn(P, S) == P[CHOOSE i \in DOMAIN P : P[i] \in S /\ \A k \in DOMAIN P : P[k] \in S => i <= k]

\* selected devices <<jid, dev, ns>>
Selected(v, g, J, P) ==
    {<<x[1], x[2], FirstIn(P, ActiveNs(v, x[1], x[2]))>> :
        x \in {y \in v.dev : /\ y[1] \in J
                             /\ ~(y[1] = g.own /\ y[2] = v.id)
                             /\ Pinned(v, y[1], y[2])
                             /\ ActiveNs(v, y[1], y[2]) \cap SeqRange(P) # {}}}

SetLevels(v, S) == \* S: sequence of <<jid, ik, level>>, later entries win
    [v EXCEPT !.tr = {r \in v.tr : \A i \in DOMAIN S : ~(S[i][1] = r[1] /\ S[i][2] = r[2])}
        \cup {S[i] : i \in {k \in DOMAIN S : \A m \in DOMAIN S : m > k => ~(S[m][1] = S[k][1] /\ S[m][2] = S[k][2])}}]
SetAll(v, U, level) ==
    IF level = None THEN v
    ELSE [v EXCEPT !.tr = {r \in v.tr : <<r[1], r[2]>> \notin U} \cup {<<u[1], u[2], level>> : u \in U}]

EncryptExp(v, g, a, h) ==
    LET P == IF a.hasprio THEN a.prio ELSE g.loaded
        J == SeqRange(a.jids) \cup {g.own}
        v1 == FoldInfo(v, a.f, J, h.pin)
        sel == Selected(v1, g, J, P)
        lev(w, s) == Core(Level(w, g, s[1], Pin(w, s[1], s[2])), g.own, s[1], s[2])
        und == {s \in sel : lev(v1, s) = "U"}
        v2 == SetAll(SetLevels(v1, a.decset), {<<s[1], Pin(v1, s[1], s[2])>> : s \in und}, a.decall)
        v3 == IF und = {} THEN v1 ELSE v2
        unk1 == \E s \in sel : lev(v1, s) = "X"
        unk3 == \E s \in sel : lev(v3, s) = "X"
        und3 == \E s \in sel : lev(v3, s) = "U"
        T == {s \in sel : lev(v3, s) = "T"}
        why(s) == IF HasSes(v3, s[3], s[1], s[2]) THEN "ok" ELSE UseBundle(v3, a.f, s[3], s[1], s[2])
        good == {s \in T : why(s) = "ok"}
        errs == {<<s[3], s[1], s[2], why(s)>> : s \in T \ good}
        nojids == {j \in SeqRange(a.jids) \ {g.own} : \A s \in good : s[1] # j}
        after(s) == IF HasSes(v3, s[3], s[1], s[2]) THEN Sent(Ses(v3, s[3], s[1], s[2]))
                    ELSE BuiltActive(v3, h, s[3], s[1], s[2], Bun(v3, s[3], s[1], s[2]))
        newRows == {after(s) : s \in good}
        v4 == [v3 EXCEPT !.ses = {r \in v3.ses : \A s \in good : ~(r[1] = s[3] /\ r[2] = s[1] /\ r[3] = s[2])} \cup newRows]
        base == [Exp0(v3) EXCEPT !.asked = und # {}, !.tq = {<<s[1], s[2], Pin(v1, s[1], s[2])>> : s \in und},
                                 !.sel = sel, !.untrusted = sel \ T]
    IN  IF SeqRange(P) \ Loaded(g) # {} THEN Fail(v, {"UnknownNamespace"})
        ELSE IF unk1 THEN [base EXCEPT !.x = {"UnknownTrustLevel"}, !.v = v1, !.asked = FALSE]
        ELSE IF und # {} /\ a.decfail THEN [base EXCEPT !.x = {"TrustDecisionFailed"}]
        ELSE IF unk3 \/ und3 THEN
            [base EXCEPT !.x = (IF unk3 THEN {"UnknownTrustLevel"} ELSE {}) \cup (IF und3 THEN {"StillUndecided"} ELSE {})]
        ELSE IF nojids # {} THEN [base EXCEPT !.x = {"NoEligibleDevices"}, !.nojids = nojids]
        ELSE [base EXCEPT !.v = v4, !.errs = errs, !.keys = {KeyRow(s) : s \in newRows}]

(***************************************************************************)
(* Decryption                                                              *)
(***************************************************************************)
PkState(v, n, pk) == {r[3] : r \in {x \in v.pki : x[1] = n /\ x[2] = pk}}

DecryptExp(v, g, a, h) ==
    LET m == a.msg
        mine == {k \in SeqRange(m.keys) : k[1] = g.own /\ k[2] = v.id}
        n == m.ns
        j == m.sj
        d == m.sd
        v1 == InfoView(v, a.f, j, h.pin)
        known1 == d \in Devs(v1, j) /\ Pinned(v1, j, d)
        L == ListOf(v, n, j)
        rep == Republish(v1, g, n, j, L)
        v2 == UpdateStep(v1, g, n, j, L)
        v3 == IF known1 THEN v1 ELSE InfoView(v2, a.f, j, h.pin)
        known3 == d \in Devs(v3, j) /\ Pinned(v3, j, d)
        ul == IF ~known1 /\ rep THEN {n} ELSE {}
        lvl == Core(Level(v3, g, j, Pin(v3, j, d)), g.own, j, d)
        k == CHOOSE x \in mine : TRUE
        kex == k[8]
        hasS == HasSes(v3, n, j, d)
        s == Ses(v3, n, j, d)
        same == hasS /\ s[5] = "P" /\ s[8] = k[9] /\ s[4] = k[10] /\ s[9] = k[11] /\ s[10] = k[12]
        cont == ~kex \/ same
        build == <<n, j, d, k[10], "P", FALSE, k[9], k[9], k[11], k[12], 2, 0, 1, k[5]>>
        stepFail ==
            IF ~kex /\ ~hasS THEN {"NoSession"}
            ELSE IF kex /\ k[9] # Pin(v3, j, d) THEN {"PublicDataInconsistency"}
            ELSE IF cont THEN (IF RecvOk(v3, s, k) THEN {} ELSE {"DecryptionFailed"})
            ELSE IF PkState(v3, n, k[11]) \cap {"v", "h"} = {} \/ PkState(v3, n, k[12]) \cap {"s", "o"} = {}
                 THEN {"KeyExchangeFailed"}
            ELSE IF ~k[7] \/ k[3] # k[10] \/ k[4] # 1 THEN {"DecryptionFailed"} ELSE {}
        payOk == m.empty \/ (m.pok /\ m.kid = k[6])
        s1 == IF cont THEN Received(s, k) ELSE build
        seen1 == IF cont THEN v3.seen \cup {<<n, j, d, k[4], k[5]>>}
                 ELSE OtherSeen(v3, n, j, d) \cup {<<n, j, d, 1, k[5]>>}
        v4 == PutSes(v3, s1, seen1)
        \* pre key consumption
        vis == kex /\ <<n, k[11], "v">> \in v4.pki
        hid == kex /\ <<n, k[11], "h">> \in v4.pki
        changed == IF g.sync THEN vis ELSE vis \/ hid
        cnt == PkCount(v4, n) - (IF vis THEN 1 ELSE 0)
        cnt2 == IF changed /\ cnt <= g.thr THEN Stock ELSE cnt
        v5 == IF ~changed THEN v4 ELSE
              [v4 EXCEPT !.pki = {r \in v4.pki : ~(r[1] = n /\ r[2] = k[11])}
                                   \cup (IF g.sync THEN {<<n, k[11], "h">>} ELSE {}),
                         !.pkv = {r \in v4.pkv : r[1] # n} \cup {<<n, cnt2>>}]
        reply == kex \/ (s1[13] > 0 /\ s1[14] > Staleness)
        s2 == Sent(s1)
        v6 == IF ~reply THEN v5
              ELSE IF g.sync THEN [v5 EXCEPT !.qj = v5.qj \cup {<<n, j>>}, !.qd = v5.qd \cup {<<n, j, d>>}]
              ELSE PutSes(v5, s2, v5.seen)
        base == [Exp0(v3) EXCEPT !.ul = ul]
        done == [base EXCEPT !.v = v6, !.ub = IF changed THEN {n} ELSE {}, !.bdchg = IF changed THEN {n} ELSE {},
                             !.mid = {s1},
                             !.sends = IF reply /\ ~g.sync THEN {KeyRow(s2)} ELSE {}]
    IN  IF n \notin Loaded(g) \/ mine = {} THEN
            Fail(v, (IF n \notin Loaded(g) THEN {"UnknownNamespace"} ELSE {})
                    \cup (IF mine = {} THEN {"MessageNotForUs"} ELSE {}))
        ELSE IF ~known1 /\ <<n, j>> \in a.f.dl THEN Fail(v1, {"DeviceListDownloadFailed"})
        ELSE IF ~known1 /\ rep /\ n \in a.f.ul THEN [Fail(v1, {"DeviceListUploadFailed"}) EXCEPT !.hit = {"ul"}]
        ELSE IF ~known3 THEN [base EXCEPT !.x = {"SenderNotFound"}]
        ELSE IF lvl = "X" THEN [base EXCEPT !.x = {"UnknownTrustLevel"}]
        ELSE IF lvl = "D" THEN [base EXCEPT !.x = {"SenderDistrusted"}]
        ELSE IF stepFail # {} THEN [base EXCEPT !.x = stepFail]
        ELSE IF ~payOk THEN [base EXCEPT !.x = {"DecryptionFailed"}]
        ELSE IF changed /\ n \in a.f.ub THEN
            [done EXCEPT !.x = {"BundleUploadFailed"}, !.v = v5, !.ub = {}, !.sends = {}, !.hit = {"ub"}]
        ELSE IF reply /\ ~g.sync /\ <<n, j>> \in a.f.send THEN
            [done EXCEPT !.x = {"MessageSendingFailed"}, !.v = v5, !.sends = {}, !.hit = {"send"}]
        ELSE done

DecryptPt(a) == IF a.msg.empty THEN None ELSE a.msg.pt
DecryptKid(v, g, a) ==
    LET mine == {k \in SeqRange(a.msg.keys) : k[1] = g.own /\ k[2] = v.id} IN (CHOOSE x \in mine : TRUE)[6]

(***************************************************************************)
(* History synchronization                                                 *)
(***************************************************************************)
AfterExp(v, g, a, h) ==
    LET ln == Loaded(g)
        Q == {q \in Queue(v) : q[1] \in ln /\ HasSes(v, q[1], q[2], q[3])}
        bad == {q \in Q : <<q[1], q[2]>> \in a.f.send}
        sent == {Sent(Ses(v, q[1], q[2], q[3])) : q \in Q}
        v1 == [v EXCEPT !.pki = {r \in v.pki : ~(r[1] \in ln /\ r[3] = "h")},
                        !.qd = {r \in v.qd : ~(r[1] \in ln /\ <<r[1], r[2]>> \in v.qj)},
                        !.qj = {r \in v.qj : r[1] \notin ln},
                        !.ses = {r \in v.ses : <<r[1], r[2], r[3]>> \notin Q} \cup sent]
        ok == [Exp0(v1) EXCEPT !.sends = {KeyRow(s) : s \in sent}]
    IN  IF bad = {} THEN ok
        ELSE [ok EXCEPT !.x = {"MessageSendingFailed"}, !.part = TRUE]

(***************************************************************************)
(* Session replacement                                                     *)
(***************************************************************************)
ReplaceKnown(v, a, h) ==
    LET v1 == InfoView(v, a.f, a.jid, h.pin) IN a.dev \in Devs(v1, a.jid) /\ Pinned(v1, a.jid, a.dev)
ReplaceExp(v, g, a, h) ==
    LET v1 == InfoView(v, a.f, a.jid, h.pin)
        j == a.jid
        d == a.dev
        \* there is nothing to replace with unknown devices
        N == {n \in Loaded(g) \cap NsOf(v1, j, d) : HasSes(v1, n, j, d) /\ ReplaceKnown(v, a, h)}
        why(n) == IF UseBundle(v1, a.f, n, j, d) # "ok" THEN UseBundle(v1, a.f, n, j, d)
                  ELSE IF <<n, j>> \in a.f.send THEN "MessageSendingFailed" ELSE "ok"
        good == {n \in N : why(n) = "ok"}
        new(n) == BuiltActive(v1, h, n, j, d, Bun(v1, n, j, d))
        v2 == [v1 EXCEPT !.ses = {r \in v1.ses : ~(r[1] \in good /\ r[2] = j /\ r[3] = d)} \cup {new(n) : n \in good},
                         !.seen = {r \in v1.seen : ~(r[1] \in good /\ r[2] = j /\ r[3] = d)}]
    IN  [Exp0(v2) EXCEPT !.sends = {KeyRow(new(n)) : n \in good},
                         !.errs = {<<n, j, d, why(n)>> : n \in N \ good}]

(***************************************************************************)
(* Consistency check                                                       *)
(***************************************************************************)
EnsureExp(v, g, a, h) ==
    LET up == {n \in Loaded(g) : ~SelfListed(v, g, n)}
        ub == {n \in Loaded(g) : BState(v, a.f, n, g.own, v.id) # "ok" \/ OwnBunDig(v, g, n) # LocalDig(v, n)}
        hit == (IF \E n \in Loaded(g) : <<n, g.own>> \in a.f.dl THEN {"DeviceListDownloadFailed"} ELSE {})
               \cup (IF up \cap a.f.ul # {} THEN {"DeviceListUploadFailed"} ELSE {})
               \cup (IF ub \cap a.f.ub # {} THEN {"BundleUploadFailed"} ELSE {})
        ok == [Exp0(FoldRefresh(v, g, g.loaded, g.own)) EXCEPT !.ul = up, !.ub = ub]
    IN  IF hit = {} THEN ok ELSE [ok EXCEPT !.x = hit, !.part = TRUE]

(***************************************************************************)
(* Purging                                                                 *)
(***************************************************************************)
DropBackend(v, n) ==
    [v EXCEPT !.ses = {r \in v.ses : r[1] # n}, !.seen = {r \in v.seen : r[1] # n}, !.pkv = {r \in v.pkv : r[1] # n},
              !.pki = {r \in v.pki : r[1] # n}, !.qj = {r \in v.qj : r[1] # n}, !.qd = {r \in v.qd : r[1] # n}]
Withdraw(v, g, n) ==
    [v EXCEPT !.sl = {r \in v.sl : ~(r[1] = n /\ r[2] = g.own /\ r[3] = v.id)},
              !.ns = {r \in v.ns : ~(r[1] = g.own /\ r[2] = v.id /\ r[3] = n)},
              !.act = {r \in v.act : ~(r[1] = g.own /\ r[2] = v.id /\ r[3] = n)}]
Unpublish(v, g, n) == [v EXCEPT !.sb = {r \in v.sb : ~(r[1] = n /\ r[2] = g.own /\ r[3] = v.id)}]

\* the removal of backends N has begun: the own device is recorded as inactive
Leaving(v, own, N) ==
    LET R == {r \in v.act : r[1] = own /\ r[2] = v.id /\ r[3] \in N /\ r[4]}
    IN  [v EXCEPT !.act = (v.act \ R) \cup {<<r[1], r[2], r[3], FALSE>> : r \in R}]

PurgeBackendExp(v, g, a, h) ==
    LET n == a.ns
        listed == SelfListed(v, g, n)
        v1 == Withdraw(v, g, n)
        v2 == IF n \in Loaded(g) THEN DropBackend(v1, n) ELSE v1
        v3 == Unpublish(v2, g, n)
        gone == IF n \in Loaded(g) THEN {n} ELSE {}
        ok == [Exp0(v3) EXCEPT !.ul = IF listed THEN {n} ELSE {}, !.db = {n}, !.bdchg = gone, !.going = {n}]
    IN  IF <<n, g.own>> \in a.f.dl THEN Fail(v, {"DeviceListDownloadFailed"})
        ELSE IF listed /\ n \in a.f.ul THEN [Fail(Leaving(v, g.own, {n}), {"DeviceListUploadFailed"}) EXCEPT !.hit = {"ul"}]
        ELSE IF n \in a.f.db THEN [ok EXCEPT !.x = {"BundleDeletionFailed"}, !.v = v2, !.db = {}, !.hit = {"db"}]
        ELSE ok

PurgeJidExp(v, g, a, h) ==
    LET j == a.jid
        D == Devs(v, j)
        K == UNION {Pins(v, j, d) : d \in D}
        other(r) == ~(r[1] = j /\ r[2] \in D)
    IN  Exp0([v EXCEPT
            !.dev = {r \in v.dev : r[1] # j}, !.ns = {r \in v.ns : other(r)}, !.act = {r \in v.act : other(r)},
            !.lab = {r \in v.lab : other(r)}, !.pin = {r \in v.pin : other(r)}, !.has = {r \in v.has : other(r)},
            !.tr = {r \in v.tr : ~(r[1] = j /\ r[2] \in K)},
            !.ses = {r \in v.ses : ~(r[1] \in Loaded(g) /\ r[2] = j)},
            !.seen = {r \in v.seen : ~(r[1] \in Loaded(g) /\ r[2] = j)},
            \* replies owed to the account are forgotten
            !.qj = {r \in v.qj : ~(r[1] \in Loaded(g) /\ r[2] = j)},
            !.qd = {r \in v.qd : ~(r[1] \in Loaded(g) /\ r[2] = j)}])

(***************************************************************************)
(* Loading                                                                 *)
(***************************************************************************)
ValidLoad(a) ==
    /\ \A i, k \in DOMAIN a.ns : a.ns[i] = a.ns[k] => i = k
    /\ a.thr >= 25 /\ a.thr <= 99

FirstRun(v) == v.id = None
\* the state after a first run has stored its identity (id, identity key taken from the observed outcome)
Identified(v, a, h) ==
    IF ~FirstRun(v) THEN v
    ELSE [v EXCEPT !.id = h.id, !.ik = h.ik,
                   !.dev = {r \in v.dev : r[1] # a.own} \cup {<<a.own, h.id>>},
                   !.ns = {r \in v.ns : ~(r[1] = a.own /\ r[2] = h.id)},
                   !.act = {r \in v.act : ~(r[1] = a.own /\ r[2] = h.id)},
                   !.lab = {r \in v.lab : ~(r[1] = a.own /\ r[2] = h.id)} \cup {<<a.own, h.id, a.label>>},
                   !.pin = {r \in v.pin : ~(r[1] = a.own /\ r[2] = h.id)} \cup {<<a.own, h.id, h.ik>>},
                   !.has = v.has \cup {<<a.own, h.id, x>> : x \in {"ns", "act", "lab"}},
                   !.tr = {r \in v.tr : ~(r[1] = a.own /\ r[2] = h.ik)} \cup {<<a.own, h.ik, a.und>>}]

CreateGhost(a) == [own |-> a.own, loaded |-> a.ns, sync |-> TRUE, thr |-> a.thr, und |-> a.und]

\* backends to initialise: loaded, but not recorded as active for the own device (never initialised, or half removed)
NewNs(v, a) == IF FirstRun(v) THEN SeqRange(a.ns) ELSE SeqRange(a.ns) \ ActiveNs(v, a.own, v.id)
\* backends to withdraw
GoneNs(v, a) == IF FirstRun(v) THEN {} ELSE (NsOf(v, a.own, v.id) \cap ActKeys(v, a.own, v.id)) \ SeqRange(a.ns)

RECURSIVE FoldWithdraw(_, _, _)
FoldWithdraw(v, g, N) ==
    IF N = {} THEN v ELSE LET n == CHOOSE x \in N : TRUE IN FoldWithdraw(Unpublish(Withdraw(v, g, n), g, n), g, N \ {n})

Refilled(v, n, thr) == IF PkCount(v, n) <= thr THEN Stock ELSE PkCount(v, n)

CreateExp(v, g0, a, h) ==
    LET g == CreateGhost(a)
        v1 == Identified(v, a, h)
        new == NewNs(v, a)
        gone == GoneNs(v, a)
        v1b == [v1 EXCEPT !.ns = {r \in v1.ns : (r[1] = a.own /\ r[2] = v1.id) => r[3] \in ActKeys(v1, a.own, v1.id)}]
        v2 == FoldRefresh(v1b, g, SelectSeq(a.ns, LAMBDA n : n \in new), a.own)
        v3 == FoldWithdraw(v2, g, gone)
        v4 == [v3 EXCEPT !.pkv = {r \in v3.pkv : r[1] \notin new} \cup {<<n, Refilled(v, n, a.thr)>> : n \in new}]
        ul == {n \in new : v1.id \notin ListDevs(ListOf(v, n, a.own))} \cup {n \in gone : v1.id \in ListDevs(ListOf(v, n, a.own))}
        dlHit == {n \in SeqRange(a.ns) : FirstRun(v) /\ <<n, a.own>> \in a.f.dl} \cup {n \in new \cup gone : <<n, a.own>> \in a.f.dl}
        hit == (IF dlHit # {} THEN {"DeviceListDownloadFailed"} ELSE {})
               \cup (IF ul \cap a.f.ul # {} THEN {"DeviceListUploadFailed"} ELSE {})
               \cup (IF new \cap a.f.ub # {} THEN {"BundleUploadFailed"} ELSE {})
               \cup (IF gone \cap a.f.db # {} THEN {"BundleDeletionFailed"} ELSE {})
        ok == [Exp0(v4) EXCEPT !.ul = ul, !.ub = new, !.db = gone, !.going = gone,
                               !.bdchg = {n \in new : Refilled(v, n, a.thr) # PkCount(v, n) \/ LocalDig(v, n) = "!none"}]
    IN  IF ~ValidLoad(a) THEN Fail(v, {"ValueError"})
        ELSE IF hit = {} THEN ok ELSE [ok EXCEPT !.x = hit, !.part = TRUE]

(***************************************************************************)
(* Ghost (volatile) state after an operation with outcome x                *)
(***************************************************************************)
GhostNext(g, op, a, x) ==
    CASE op = "create" /\ x = "ok" -> CreateGhost(a)
      [] op = "before" -> [g EXCEPT !.sync = TRUE]
      [] op = "after" -> [g EXCEPT !.sync = FALSE]
      [] op = "purge_backend" /\ x \in {"ok", "BundleDeletionFailed"} ->
            [g EXCEPT !.loaded = SelectSeq(g.loaded, LAMBDA n : n # a.ns)]
      [] OTHER -> g

ExpOf(op, v, g, a, h) ==
    CASE op = "create" -> CreateExp(v, g, a, h)
      [] op = "update" -> UpdateExp(v, g, a, h)
      [] op = "refresh" -> RefreshExp(v, g, a, h)
      [] op = "refresh_all" -> RefreshAllExp(v, g, a, h)
      [] op = "set_trust" -> SetTrustExp(v, g, a, h)
      [] op = "set_label" -> SetLabelExp(v, g, a, h)
      [] op = "info" -> InfoExp(v, g, a, h)
      [] op = "own_info" -> InfoExp(v, g, [jid |-> g.own, f |-> a.f], h)
      [] op = "scl" -> Exp0(v)
      [] op = "before" -> Exp0(v)
      [] op = "after" -> AfterExp(v, g, a, h)
      [] op = "ensure" -> EnsureExp(v, g, a, h)
      [] op = "replace" -> ReplaceExp(v, g, a, h)
      [] op = "encrypt" -> EncryptExp(v, g, a, h)
      [] op = "decrypt" -> DecryptExp(v, g, a, h)
      [] op = "purge_backend" -> PurgeBackendExp(v, g, a, h)
      [] op = "purge_jid" -> PurgeJidExp(v, g, a, h)

(***************************************************************************)
(* Documented failures: the exceptions the application has to be prepared  *)
(* for, per call (those of the docstrings, and those forwarded from the    *)
(* calls the docstring says are made on the way).                          *)
(***************************************************************************)
Documented(op) ==
    CASE op = "create" -> {"ValueError", "BundleUploadFailed", "BundleDeletionFailed", "DeviceListUploadFailed", "DeviceListDownloadFailed"}
      [] op = "update" -> {"UnknownNamespace", "DeviceListUploadFailed"}
      [] op = "refresh" -> {"UnknownNamespace", "DeviceListDownloadFailed", "DeviceListUploadFailed"}
      [] op \in {"refresh_all", "set_label"} -> {"DeviceListDownloadFailed", "DeviceListUploadFailed"}
      [] op = "purge_backend" -> {"BundleDeletionFailed", "DeviceListDownloadFailed", "DeviceListUploadFailed"}
      [] op = "ensure" -> {"DeviceListDownloadFailed", "DeviceListUploadFailed", "BundleUploadFailed"}
      [] op = "after" -> {"MessageSendingFailed"}
      [] op = "encrypt" -> {"UnknownNamespace", "UnknownTrustLevel", "TrustDecisionFailed", "StillUndecided", "NoEligibleDevices",
                            "KeyExchangeFailed"}
      [] op = "decrypt" -> {"UnknownNamespace", "UnknownTrustLevel", "KeyExchangeFailed", "MessageNotForUs", "SenderNotFound",
                            "SenderDistrusted", "NoSession", "PublicDataInconsistency", "MessageSendingFailed", "DecryptionFailed",
                            "TooManySkippedMessageKeys", "DeviceListDownloadFailed", "DeviceListUploadFailed", "BundleUploadFailed"}
      [] OTHER -> {}

(***************************************************************************)
(* State predicates                                                        *)
(***************************************************************************)
\* the persisted device cache is complete for every known device
WellFormed(v, own) ==
    /\ \A r \in v.dev : {<<r[1], r[2], x>> : x \in {"ns", "act", "lab"}} \subseteq v.has
    /\ v.id # None => /\ v.ik # None
                      /\ <<own, v.id>> \in v.dev
                      /\ <<own, v.id, v.ik>> \in v.pin
\* every loaded backend is published
PublishedNs(v, g, n) ==
    /\ SelfListed(v, g, n)
    /\ OwnBunDig(v, g, n) = LocalDig(v, n)
    /\ PkCount(v, n) > 0
\* Sessions are bound to pinned keys. Judged are the sessions that were not there before v is reached from u. (Sessions of backends that are not loaded while an account is
\* purged survive the purge, and with it the key they were built with, if the backend is loaded again.)
SessionsPinned(u, v) ==
    \A s \in v.ses : \/ \E r \in u.ses : <<r[1], r[2], r[3], r[4]>> = <<s[1], s[2], s[3], s[4]>>
                     \/ (Pinned(v, s[2], s[3]) /\ s[7] = Pin(v, s[2], s[3]))
=============================================================================
