------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* State machine of one client: Omemo.tla's transition functions composed  *)
(* with a server, remote devices and failing network operations.           *)
(*                                                                         *)
(* Two uses.  Exhaustive (Record = FALSE): every transition within the     *)
(* bounds is checked against the properties, which are stated here         *)
(* independently of the transition functions, from ghost histories (the    *)
(* lists processed, the message keys given out, the replies owed, ...).    *)
(* Simulation (Record = TRUE): the behaviours are printed and replayed on  *)
(* the real library, whose traces Trace.tla then validates.                *)
(***************************************************************************)
EXTENDS Omemo, Json, SequencesExt

CONSTANTS NSs,       \* backends, a sequence
          Own, Accts,\* own account, other accounts
          PDevs,     \* devices of the other accounts
          ODevs,     \* other devices of the own account
          Ops,       \* enabled operations, a sequence (repetitions weigh)
          FKinds,    \* enabled kinds of network failures
          Levels,    \* trust levels set
          DecAll,    \* what the trust decision sets undecided devices to
          LabelSet,
          Kinds,     \* kinds of incoming messages
          Flags,     \* how incoming messages may be damaged
          Thr,       \* refill thresholds
          IkVars,    \* variants of identity keys in published bundles
          Start,     \* "empty" | "ready" | "live"
          MaxSteps, Record,
          Isolation  \* check the independence of operations about different contacts

VARIABLES v, g, alive, gh, pc, step, hist
vars == <<v, g, alive, gh, pc, step, hist>>

NsSet == SeqRange(NSs)
Me == "me"
AllJ == Accts \cup {Own}
DevsOf(j) == IF j = Own THEN ODevs ELSE PDevs
Ik(j, d, c) == j \o "/" \o d \o "/" \o ToString(c)
Fresh(k) == k \o ToString(step)

V0 == [id |-> None, ik |-> None, dev |-> {}, ns |-> {}, act |-> {}, lab |-> {}, pin |-> {}, has |-> {}, tr |-> {}, qj |-> {},
       qd |-> {}, ses |-> {}, seen |-> {}, pkv |-> {}, pki |-> {}, bd |-> {}, sl |-> {}, sb |-> {}, sbp |-> {}]
G0 == [own |-> Own, loaded |-> <<>>, sync |-> TRUE, thr |-> 99, und |-> "undecided"]
\* ghosts: last processed lists, everything ever listed, labels last carried, message keys given out, replies owed
\* (sessions), pre keys consumed for good / hidden, sessions something was received over, sessions built here,
\* first identity key known, devices known
GH0 == [lists |-> {}, ever |-> {}, lastlab |-> {}, used |-> {}, owe |-> {}, dead |-> {}, hid |-> {}, recv |-> {}, mine |-> {},
        first |-> {}, known |-> {}]
NoPeer == [sid |-> None, e |-> 0, n |-> 0, kex |-> <<>>, unconf |-> FALSE, log |-> <<>>, inb |-> <<>>]
PeerKeys == {<<n, j, d>> : n \in NsSet, j \in Accts, d \in PDevs}

Init == /\ v = V0 /\ g = G0 /\ alive = FALSE /\ gh = GH0 /\ step = 0 /\ hist = <<>>
        /\ pc = [k \in PeerKeys |-> NoPeer]

NoF == [dl |-> {}, ul |-> {}, ub |-> {}, db |-> {}, send |-> {}, dlb |-> {}]
FaultSets(kinds) ==
    {NoF} \cup
    UNION {LET some == {NsSet} \cup {{n} : n \in NsSet}
           IN  CASE k \in {"ul", "ub", "db"} -> {[NoF EXCEPT ![k] = N] : N \in some}
                 [] k \in {"dl", "send"} -> {[NoF EXCEPT ![k] = {<<n, j>> : n \in N, j \in AllJ}] : N \in some}
                 [] OTHER -> {[NoF EXCEPT !.dlb = {<<n, j, d, kk>> : n \in N, j \in AllJ, d \in PDevs \cup ODevs}] :
                                N \in some, kk \in {"fail"}} : k \in kinds \cap FKinds}
JD(j) == IF j = Own THEN "own" ELSE j
FD(f) == [dl |-> SetToSeq({<<x[1], JD(x[2])>> : x \in f.dl}), ul |-> SetToSeq(f.ul), ub |-> SetToSeq(f.ub), db |-> SetToSeq(f.db),
          send |-> SetToSeq({<<x[1], JD(x[2])>> : x \in f.send}), dlb |-> SetToSeq({<<x[1], JD(x[2]), x[3], x[4]>> : x \in f.dlb})]
\* simulation draws the arguments, exhaustive checking takes them all
Pick(SS) == IF Record /\ SS # {} THEN {RandomElement(SS)} ELSE SS
PickF(SS) == IF Record THEN (IF RandomElement(1..4) = 1 THEN {RandomElement(SS)} ELSE {NoF}) ELSE SS
PickFlag(SS) == IF Record THEN (IF RandomElement(1..3) = 1 THEN {RandomElement(SS)} ELSE {"ok"}) ELSE SS
PickC(SS) == IF Record THEN (IF RandomElement(1..5) = 1 THEN {RandomElement(SS)} ELSE {0}) ELSE SS
PickHow(SS) == IF Record THEN (IF RandomElement(1..5) = 1 THEN {RandomElement(SS)} ELSE {"good"}) ELSE SS
H(ds) == hist' = IF Record THEN hist \o ds ELSE <<>>

(***************************************************************************)
(* Completing the outcome with what the transition functions leave open:   *)
(* digests of local bundles, fresh pre keys, the own published bundles     *)
(***************************************************************************)
PkNames(n, s) == {n \o "k" \o ToString(s) \o i : i \in {"a", "b"}}
Complete(e, w) ==
    LET made == {n \in e.bdchg : PkCount(w, n) > 0 /\ {r \in w.pki : r[1] = n /\ r[3] = "s"} = {}}
        pki == w.pki \cup UNION {{<<n, k, "v">> : k \in PkNames(n, step)} \cup {<<n, Fresh(n \o "s"), "s">>} : n \in made}
        bd == {r \in w.bd : r[1] \notin e.bdchg} \cup {<<n, Fresh("B")>> : n \in {x \in e.bdchg : PkCount(w, x) > 0}}
        dig(n) == (CHOOSE r \in bd : r[1] = n)[2]
        spk(n) == (CHOOSE r \in pki : r[1] = n /\ r[3] = "s")[2]
        ub == {n \in e.ub : \E r \in bd : r[1] = n}
        mine(r) == r[1] \in ub /\ r[2] = Own /\ r[3] = w.id
    IN  [w EXCEPT !.pki = pki, !.bd = bd,
                  !.sb = {r \in w.sb : ~mine(r)} \cup {<<n, Own, w.id, w.ik, dig(n), TRUE, "x", spk(n)>> : n \in ub},
                  !.sbp = {r \in w.sbp : r[1] \notin ub} \cup {<<r[1], r[2]>> : r \in {q \in pki : q[1] \in ub /\ q[3] = "v"}}]

(***************************************************************************)
(* Properties of a transition, stated without the transition functions     *)
(***************************************************************************)
Mine(w, m) == {k \in SeqRange(m.keys) : k[1] = Own /\ k[2] = w.id}
SesOf(w) == {<<s[1], s[2], s[3], s[4]>> : s \in w.ses}
Refreshed(op, a) == \* lists processed by a successful operation: {<<n, j>>}
    CASE op \in {"update", "refresh"} -> {<<a.ns, a.jid>>}
      [] op = "refresh_all" -> {<<n, a.jid>> : n \in Loaded(g)}
      [] op = "ensure" -> {<<n, Own>> : n \in Loaded(g)}
      [] OTHER -> {}

(***************************************************************************)
(* C30: what an operation about one contact reads and writes               *)
(***************************************************************************)
\* the contact an operation is about; None: not such an operation
Contact(op, a) ==
    CASE op \in {"update", "refresh", "refresh_all", "set_trust", "info", "replace"} -> IF a.jid = Own THEN None ELSE a.jid
      [] op = "encrypt" -> IF Len(a.jids) = 1 THEN a.jids[1] ELSE None
      [] op = "decrypt" -> IF a.msg.sj = Own THEN None ELSE a.msg.sj
      [] OTHER -> None
About(R, c, j) == {r \in R : r[c] = j}
Others(R, c, j) == {r \in R : r[c] # j}
Of(u, j) == [dev |-> About(u.dev, 1, j), ns |-> About(u.ns, 1, j), act |-> About(u.act, 1, j), lab |-> About(u.lab, 1, j),
             pin |-> About(u.pin, 1, j), has |-> About(u.has, 1, j), tr |-> About(u.tr, 1, j), q |-> {r \in Queue(u) : r[2] = j},
             ses |-> About(u.ses, 2, j), seen |-> About(u.seen, 2, j)]
Without(u, j) == [u EXCEPT !.dev = Others(u.dev, 1, j), !.ns = Others(u.ns, 1, j), !.act = Others(u.act, 1, j), !.lab = Others(u.lab, 1, j),
                           !.pin = Others(u.pin, 1, j), !.has = Others(u.has, 1, j), !.tr = Others(u.tr, 1, j), !.qd = Others(u.qd, 2, j), !.qj = Others(u.qj, 2, j),
                           !.ses = Others(u.ses, 2, j), !.seen = Others(u.seen, 2, j)]
\* key exchanges and history synchronization touch data that all contacts share
Shared(op, a) == op = "decrypt" /\ (g.sync \/ \E k \in Mine(v, a.msg) : k[8])
Independent(op, a, h, x, e, w) ==
    LET j == Contact(op, a)
    IN  j = None \/
        \A k \in Accts \ {j} :
            LET e2 == ExpOf(op, Without(v, k), g, a, h)
            IN  /\ Of(w, k) = Of(v, k)                      \* nothing of anybody else is written
                /\ e2.x = e.x /\ e2.keys = e.keys /\ e2.sends = e.sends /\ e2.errs = e.errs /\ e2.tq = e.tq
                /\ Of(e2.v, j) = Of(e.v, j)                 \* nothing of anybody else is read
                /\ ~Shared(op, a) => Without(e.v, j) = Without(v, j)

Checks(op, a, e, x, w, g2) ==
    LET rows == e.keys
        ok == x = "ok"
        elig(j, d) == \* eligible backends in priority order
            LET P == IF a.hasprio THEN a.prio ELSE g.loaded IN {P[i] : i \in DOMAIN P} \cap ActiveNs(w, j, d)
        others == [q \in {"dev", "ns", "act", "lab", "pin", "tr"} |-> 0]
        foreign(u, j) == <<{r \in u.dev : r[1] # j}, {r \in u.ns : r[1] # j}, {r \in u.act : r[1] # j}, {r \in u.lab : r[1] # j},
                           {r \in u.pin : r[1] # j}, {r \in u.tr : r[1] # j}, {r \in u.ses : r[2] # j}>>
    IN  {<<"C02.pin", \A r \in v.pin : r \in w.pin \/ (op = "purge_jid" /\ r[1] = a.jid)>>,
         <<"C02.session", \A s \in w.ses : s \in v.ses \/ \A r \in w.pin : (r[1] = s[2] /\ r[2] = s[3]) => r[3] = s[7]>>,
         <<"C10.stock", \A r \in w.pkv : r[2] <= Stock>>,
         <<"C24.complete", WellFormed(w, Own) \/ w.id = None>>,
         <<"C34.doc", e.x \subseteq {"ok"} \cup Documented(op)>>}
        \cup
    (CASE op = "encrypt" ->
        {<<"C01.trusted", \A r \in rows : \A p \in w.pin : (p[1] = r[2] /\ p[2] = r[3]) => Core(Level(w, g, p[1], p[3]), Own, p[1], p[2]) = "T">>,
         <<"C01.asked", ok /\ e.asked => \A r \in e.tq : Core(Level(v, g, r[1], r[3]), Own, r[1], r[2]) = "U"
                                                           /\ Core(Level(w, g, r[1], r[3]), Own, r[1], r[2]) \in {"T", "D"}>>,
         <<"C03.self", \A r \in rows : ~(r[2] = Own /\ r[3] = v.id)>>,
         <<"C03.once", \A r, q \in rows : (r[2] = q[2] /\ r[3] = q[3]) => r = q>>,
         <<"C03.backend", \A r \in rows : LET P == IF a.hasprio THEN a.prio ELSE g.loaded
                                              i == CHOOSE k \in DOMAIN P : P[k] = r[1]
                                          IN  /\ r[1] \in ActiveNs(w, r[2], r[3])
                                              /\ \A k \in 1..(i - 1) : P[k] \notin ActiveNs(w, r[2], r[3])>>,
         \* everyone eligible and trusted is addressed or reported
         <<"C04.all", ok => \A dd \in w.dev : (dd[1] \in SeqRange(a.jids) \cup {Own} /\ dd # <<Own, v.id>> /\ elig(dd[1], dd[2]) # {}
                                               /\ \E p \in w.pin : p[1] = dd[1] /\ p[2] = dd[2] /\ Core(Level(w, g, p[1], p[3]), Own, p[1], p[2]) = "T")
                         => \/ \E r \in rows : <<r[2], r[3]>> = dd
                            \/ \E r \in e.errs : <<r[2], r[3]>> = dd>>,
         <<"C04.either", \A r \in rows : \A q \in e.errs : ~(r[2] = q[2] /\ r[3] = q[3])>>,
         <<"C04.nobody", ok => \A j \in SeqRange(a.jids) \ {Own} : \E r \in rows : r[2] = j>>,
         <<"C05.fail", ~ok => w.ses = v.ses /\ rows = {}>>,
         <<"C05.reuse", \A r \in rows : <<r[4], r[5], r[6]>> \notin gh.used>>,
         <<"C05.stored", \A r \in rows : \E s \in w.ses : s[4] = r[4] /\ s[11] = r[5] /\ s[12] = r[6]>>,
         <<"C05.others", \A s \in v.ses : s \in w.ses \/ \E r \in rows : r[1] = s[1] /\ r[2] = s[2] /\ r[3] = s[3]>>,
         <<"C08.kex", \A r \in rows : r[7] <=> (r[4] \notin gh.recv /\ (r[4] \in gh.mine \/ ~\E s \in v.ses : s[4] = r[4]))>>,
         <<"C13.quiet", w.dev = v.dev /\ w.act = v.act /\ w.lab = v.lab>>}
      [] op = "decrypt" ->
        LET m == a.msg  K == Mine(v, m)  k == CHOOSE y \in K : TRUE
            here(s) == s[1] = m.ns /\ s[2] = m.sj /\ s[3] = m.sd
            kexes == {y \in K : y[8]}
        IN
        {<<"C06.only", ok => /\ m.ns \in Loaded(g) /\ K # {}
                             /\ \E p \in w.pin : p[1] = m.sj /\ p[2] = m.sd /\ Core(Level(w, g, m.sj, p[3]), Own, m.sj, m.sd) \in {"T", "U"}
                             /\ <<m.sj, m.sd>> \in w.dev>>,
         <<"C07.quiet", (~ok /\ e.hit \cap {"ub", "send"} = {}) =>
                            w.ses = v.ses /\ w.seen = v.seen /\ w.pki = v.pki /\ w.pkv = v.pkv /\ w.bd = v.bd
                            /\ Queue(w) = Queue(v) /\ e.sends = {} /\ w.sbp = v.sbp>>,
         <<"C07.advance", ok => <<m.ns, m.sj, m.sd, k[4], k[5]>> \in w.seen /\ <<m.ns, m.sj, m.sd, k[4], k[5]>> \notin
                            (IF \E s \in v.ses : here(s) /\ s[4] = k[3] THEN v.seen ELSE {})>>,
         <<"C08.same", \A s \in v.ses : (here(s) /\ ok /\ kexes # {} /\ k[10] # s[4]) => ~\E q \in w.ses : q[4] = s[4]>>,
         <<"C08.cont", \A s \in v.ses : (here(s) /\ ok /\ k[3] = s[4]) => \E q \in w.ses : here(q) /\ q[4] = s[4]>>,
         <<"C02.kex", ok /\ kexes # {} => \A p \in v.pin : (p[1] = m.sj /\ p[2] = m.sd) => p[3] = k[9]>>,
         <<"C09.offer", ok /\ kexes # {} => <<m.ns, k[11], "v">> \notin w.pki /\ (~g.sync => <<m.ns, k[11], "h">> \notin w.pki)>>,
         <<"C09.refused", ok /\ kexes # {} /\ <<m.ns, k[11]>> \in gh.dead => \E s \in v.ses : here(s) /\ s[4] = k[10]>>,
         <<"C09.published", ok /\ kexes # {} => <<m.ns, k[11]>> \notin w.sbp \/ m.ns \in gh.known>>,
         <<"C10.refill", ok /\ m.ns \in e.bdchg => PkCount(w, m.ns) > g.thr>>,
         <<"C10.published", ok /\ m.ns \in e.bdchg => m.ns \in e.ub>>,
         <<"C10.quiet", w.pkv = v.pkv /\ w.pki = v.pki => e.ub = {}>>,
         <<"C11.defer", g.sync => e.sends = {} >>,
         <<"C11.queue", ok /\ g.sync /\ kexes # {} => <<m.ns, m.sj, m.sd>> \in Queue(w)>>,
         <<"C12.reply", ok /\ ~g.sync => Cardinality(e.sends) = (IF kexes # {} \/ \E s \in v.ses : here(s) /\ s[4] = k[3] /\
                            (IF k[4] > s[13] THEN k[5] ELSE IF k[4] = s[13] THEN Max2(k[5], s[14]) ELSE s[14]) > Staleness THEN 1 ELSE 0)>>,
         <<"C12.to", \A r \in e.sends : r[1] = m.ns /\ r[2] = m.sj /\ r[3] = m.sd /\ ~r[7]>>,
         <<"C05.reuse", \A r \in e.sends : <<r[4], r[5], r[6]>> \notin gh.used>>,
         <<"C12.stored", ok => \A r \in e.sends : \E s \in w.ses : s[4] = r[4] /\ s[11] = r[5] /\ s[12] = r[6]>>}
      [] op \in {"update", "refresh", "refresh_all"} ->
        {<<"C13.foreign", foreign(w, a.jid) = foreign(v, a.jid) /\ w.ses = v.ses /\ w.tr = v.tr /\ w.pin = v.pin>>,
         <<"C14.own", ok /\ a.jid = Own => \A r \in Refreshed(op, a) : r[1] \in Loaded(g) =>
                \/ \E q \in w.sl : q[1] = r[1] /\ q[2] = Own /\ q[3] = v.id
                \/ op = "update" /\ v.id \in ListDevs(a.rows)>>,
         <<"C14.only", {r \in w.sl : r[2] # Own \/ r[1] \notin Loaded(g)} = {r \in v.sl : r[2] # Own \/ r[1] \notin Loaded(g)}>>,
         <<"C14.keep", op # "update" => \A r \in v.sl : r \in w.sl>>,
         <<"C14.quiet", e.ul # {} => a.jid = Own>>,
         <<"C14.present", \A n \in e.ul : IF op = "update" THEN v.id \notin ListDevs(a.rows) ELSE ~SelfListed(v, g, n)>>}
      [] op = "set_label" ->
        {<<"C26.all", ok => \A n \in Loaded(g) : <<n, Own, v.id, a.label>> \in w.sl /\ <<Own, v.id, a.label>> \in w.lab>>,
         <<"C26.keep", {r \in w.sl : ~(r[2] = Own /\ r[3] = v.id)} = {r \in v.sl : ~(r[2] = Own /\ r[3] = v.id)}>>}
      [] op = "after" ->
        {<<"C11.each", ok => {r[4] : r \in e.sends} = {s[4] : s \in {q \in v.ses : <<q[1], q[2], q[3]>> \in gh.owe /\ q[1] \in Loaded(g)}}>>,
         <<"C11.one", Cardinality({r[4] : r \in e.sends}) = Cardinality(e.sends)>>,
         <<"C09.gone", ok => ~\E r \in w.pki : r[3] = "h" /\ r[1] \in Loaded(g)>>,
         <<"C05.reuse", \A r \in e.sends : <<r[4], r[5], r[6]>> \notin gh.used>>}
      [] op = "replace" ->
        {<<"C23.sent", \A s \in w.ses : s \in v.ses \/ \E r \in e.sends : r[4] = s[4] /\ r[7]>>,
         <<"C23.kept", \A r \in e.errs : \A s \in v.ses : (s[1] = r[1] /\ s[2] = r[2] /\ s[3] = r[3]) => s \in w.ses>>,
         <<"C23.all", ok => \A s \in v.ses : (s[2] = a.jid /\ s[3] = a.dev /\ s[1] \in Loaded(g) /\ <<a.jid, a.dev, s[1]>> \in w.ns)
                          => s \notin w.ses \/ \E r \in e.errs : r[1] = s[1]>>,
         <<"C23.others", \A s \in v.ses : s \in w.ses \/ (s[2] = a.jid /\ s[3] = a.dev)>>}
      [] op = "ensure" ->
        {<<"C21.restored", ok => \A n \in Loaded(g) : SelfListed(w, g, n) /\ OwnBunDig(w, g, n) = LocalDig(w, n)>>,
         <<"C21.keep", \A r \in v.sl : r \in w.sl>>,
         <<"C21.quiet", \A n \in e.ub : OwnBunDig(v, g, n) # LocalDig(v, n) \/ \E y \in a.f.dlb : y[1] = n>>,
         <<"C21.local", w.pki = v.pki /\ w.pkv = v.pkv /\ w.bd = v.bd /\ w.ses = v.ses /\ w.pin = v.pin>>}
      [] op = "purge_jid" ->
        {<<"C19.gone", /\ {r \in w.dev \cup w.lab \cup w.pin : r[1] = a.jid} = {}
                       /\ {r \in w.ns \cup w.act : r[1] = a.jid} = {}
                       /\ {s \in w.ses : s[2] = a.jid /\ s[1] \in Loaded(g)} = {}
                       /\ \A p \in v.pin : p[1] = a.jid => {r \in w.tr : r[1] = a.jid /\ r[2] = p[3]} = {}>>,
         <<"C19.others", foreign(w, a.jid) = foreign(v, a.jid) /\ w.sl = v.sl /\ w.sb = v.sb>>}
      [] op = "purge_backend" ->
        {<<"C18.gone", ok => /\ ~SelfListed(w, g, a.ns) /\ OwnBunDig(w, g, a.ns) = "!none"
                             /\ a.ns \notin Loaded(g2)
                             /\ (a.ns \in Loaded(g) => {s \in w.ses : s[1] = a.ns} = {} /\ PkCount(w, a.ns) = 0)
                             /\ (a.ns \notin Loaded(g) => w.ses = v.ses /\ w.pkv = v.pkv)>>,
         <<"C18.others", /\ {s \in w.ses : s[1] # a.ns} = {s \in v.ses : s[1] # a.ns} /\ w.tr = v.tr /\ w.pin = v.pin
                         /\ w.id = v.id /\ w.ik = v.ik
                         /\ {r \in w.sl : ~(r[1] = a.ns /\ r[2] = Own /\ r[3] = v.id)} = {r \in v.sl : ~(r[1] = a.ns /\ r[2] = Own /\ r[3] = v.id)}>>,
         <<"C17.order", SelfListed(w, g, a.ns) => OwnBunDig(w, g, a.ns) # "!none" \/ OwnBunDig(v, g, a.ns) = "!none">>}
      [] op = "create" ->
        {<<"C16.published", ok => \A n \in Loaded(g2) : PublishedNs(w, g2, n) \/ n \in gh.known>>,
         <<"C15.kept", v.id # None => w.id = v.id /\ w.ik = v.ik>>,
         <<"C15.identity", ok => w.id # None /\ <<Own, w.id, w.ik>> \in w.pin>>,
         <<"C18.dropped", ok /\ v.id # None => \A n \in NsSet \ Loaded(g2) :
                (\E r \in v.act : r[1] = Own /\ r[2] = v.id /\ r[3] = n) => ~SelfListed(w, g2, n) /\ OwnBunDig(w, g2, n) = "!none">>,
         <<"C18.local", w.ses = v.ses /\ {r \in v.pkv : r[1] \notin SeqRange(a.ns)} = {r \in w.pkv : r[1] \notin SeqRange(a.ns)}>>,
         <<"C16.quiet", (ok /\ v.id # None /\ ActiveNs(v, Own, v.id) = Loaded(g2) /\ NsOf(v, Own, v.id) = Loaded(g2)) => e.ub = {} /\ e.ul = {} /\ e.db = {}>>,
         \* loading once more on published data changes nothing
         <<"C31.idle", (ok /\ v.id # None /\ ~e.part /\ a.f = NoF /\ gh.known = {} /\ a.ns # <<>> /\ v.ik = w.ik
                        /\ SeqRange(a.ns) = Loaded(g) /\ ActiveNs(v, Own, v.id) = Loaded(g) /\ NsOf(v, Own, v.id) = Loaded(g)
                        /\ Label(v, Own, v.id) = a.label
                        /\ \A d \in Devs(v, Own) : \E p \in v.pin : p[1] = Own /\ p[2] = d)
                            => w = v /\ e.ub = {} /\ e.ul = {} /\ e.db = {} /\ e.sends = {}>>,
         <<"C11.mode", ok => g2.sync>>}
      [] op \in {"info", "own_info"} ->
        {<<"C25.quiet", [w EXCEPT !.pin = {}, !.ns = {}] = [v EXCEPT !.pin = {}, !.ns = {}]>>}
      [] OTHER -> {})

(***************************************************************************)
(* Ghosts                                                                  *)
(***************************************************************************)
Processed(op, a, e, x, w) == \* {<<n, j, d, label>>} of the lists processed and {<<n, j>>}
    LET R == CASE op = "create" /\ x = "ok" -> {<<n, Own>> : n \in NewNs(v, a)}
               [] op = "decrypt" /\ a.msg.ns \in Loaded(g) /\ Mine(v, a.msg) # {} /\ <<a.msg.ns, a.msg.sj>> \notin a.f.dl
                     /\ ~(\E p \in v.pin \cup LearnedPins(v, a.f, a.msg.sj, w.pin) : p[1] = a.msg.sj /\ p[2] = a.msg.sd)
                     /\ x # "DeviceListUploadFailed" -> {<<a.msg.ns, a.msg.sj>>}
               [] x = "ok" -> Refreshed(op, a)
               [] OTHER -> {}
        L(r) == IF op = "update" THEN a.rows ELSE ListOf(v, r[1], r[2])
    IN  [at |-> R, rows |-> {<<r[1], r[2], y[1], y[2]>> : <<r, y>> \in UNION {{<<q, z>> : z \in L(q)} : q \in R}}]

RECURSIVE LastLabels(_, _, _)
LastLabels(R, j, nss) ==
    IF nss = <<>> THEN R ELSE
    LET L == {y \in ListOf(v, Head(nss), j) : y[2] # None}
    IN  LastLabels({r \in R : ~(r[1] = j /\ \E y \in L : y[1] = r[2])} \cup {<<j, y[1], y[2]>> : y \in L}, j, Tail(nss))
GhostUpd(op, a, e, x, w) ==
    LET P == Processed(op, a, e, x, w)
        pj(r) == op = "purge_jid" /\ r = a.jid
        out == IF x = "ok" THEN {<<r[4], r[5], r[6]>> : r \in e.keys \cup e.sends} ELSE {}
        ok == x = "ok"
        K == IF op = "decrypt" THEN Mine(v, a.msg) ELSE {}
        dec == op = "decrypt" /\ ok
        k == CHOOSE y \in K : TRUE
        deckex == dec /\ k[8]
        s1 == CHOOSE s \in w.ses : s[1] = a.msg.ns /\ s[2] = a.msg.sj /\ s[3] = a.msg.sd
    IN  [lists |-> {r \in gh.lists : <<r[1], r[2]>> \notin P.at /\ ~pj(r[2])} \cup {<<r[1], r[2], r[3]>> : r \in P.rows},
         ever |-> {r \in gh.ever : ~pj(r[2])} \cup {<<r[1], r[2], r[3]>> : r \in P.rows},
         lastlab |-> IF op = "refresh_all" /\ ok THEN LastLabels(gh.lastlab, a.jid, g.loaded) ELSE {r \in gh.lastlab : ~pj(r[1]) /\ ~\E y \in P.rows : y[2] = r[1] /\ y[3] = r[2] /\ y[4] # None}
                        \cup {<<y[2], y[3], y[4]>> : y \in {z \in P.rows : z[4] # None}},
         used |-> {u \in gh.used : u[1] \notin Rebuilt(v, w)} \cup out,
         owe |-> CASE op = "after" /\ ~ok -> Queue(w) \* a failing send ends the mode; what is dropped is not specified
                   [] op = "after" /\ ok -> {r \in gh.owe : r[1] \notin Loaded(g)}
                   [] op = "purge_jid" -> {r \in gh.owe : ~(r[1] \in Loaded(g) /\ r[2] = a.jid)}
                   [] op = "purge_backend" /\ x \in {"ok", "BundleDeletionFailed"} /\ a.ns \in Loaded(g) -> {r \in gh.owe : r[1] # a.ns}
                   [] dec /\ g.sync /\ (k[8] \/ (s1[13] > 0 /\ s1[14] > Staleness)) -> gh.owe \cup {<<s1[1], s1[2], s1[3]>>}
                   [] OTHER -> gh.owe,
         dead |-> gh.dead \cup (IF deckex /\ ~g.sync THEN {<<a.msg.ns, k[11]>>} ELSE {})
                          \cup (IF op = "after" /\ ok THEN {<<r[1], r[2]>> : r \in {q \in gh.hid : q[1] \in Loaded(g)}} ELSE {}),
         hid |-> IF deckex /\ g.sync THEN gh.hid \cup {<<a.msg.ns, k[11]>>} ELSE gh.hid,
         recv |-> gh.recv \cup (IF dec THEN {k[3]} ELSE {}),
         mine |-> gh.mine \cup {s[4] : s \in {q \in w.ses : q[5] = "A"}},
         first |-> gh.first,
         \* backends whose published data was changed by others, or left outdated by a failed upload
         known |-> (gh.known \cup (IF ok THEN {} ELSE e.bdchg)) \ (IF ok THEN {n \in e.ub : PublishedNs(w, g, n)} ELSE {})]

(***************************************************************************)
(* Applying an operation                                                   *)
(***************************************************************************)
Hints == LET sidRows == {<<n, j, d, "s" \o ToString(step) \o n \o j \o d, "A", FALSE, "", "", "", "", 1, 1, 0, 0>> :
                            n \in NsSet, j \in AllJ, d \in PDevs \cup ODevs}
         IN  {[v EXCEPT !.id = Me, !.ik = Ik(Own, Me, 0), !.ses = sidRows, !.pin = {<<j, d, Ik(j, d, c)>> : j \in AllJ, d \in PDevs \cup ODevs}] :
                c \in IkVars}
Inbox(p, rows) == [k \in PeerKeys |->
                    LET R == {r \in rows : <<r[1], r[2], r[3]>> = k}
                    IN  IF R = {} THEN p[k] ELSE LET r == CHOOSE q \in R : TRUE IN [p[k] EXCEPT !.inb = <<r[4], r[5]>>]]
Apply(op, a, descs, p) ==
    /\ \E h \in Pick(Hints) :
        LET e == ExpOf(op, v, g, a, h)
        IN  \E x \in Pick(e.x) : \E w0 \in Pick(IF e.part THEN {v, e.v} ELSE {e.v}) :
                LET w == Complete(e, w0)
                    g2 == GhostNext(g, op, a, x)
                IN  /\ \A c \in Checks(op, a, e, x, w, g2) : Assert(c[2], <<c[1], op, a, x>>)
                    /\ Isolation => Assert(Independent(op, a, h, x, e, w), <<"C30", op, a, x>>)
                    /\ v' = w
                    /\ g' = g2
                    /\ gh' = GhostUpd(op, a, e, x, w)
                    /\ pc' = Inbox(p, IF x = "ok" THEN e.keys \cup e.sends ELSE {})
                    /\ alive' = IF op = "create" THEN x = "ok" ELSE alive
    /\ H(descs)

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
ListChoices(j) ==
    {{<<d, l>> : d \in D} : D \in SUBSET (DevsOf(j) \cup IF j = Own /\ v.id # None THEN {Me} ELSE {}), l \in LabelSet}
RowsD(L) == SetToSeq(L)

EnvList == \E n \in Pick(NsSet), j \in Pick(AllJ) : \E L \in Pick(ListChoices(j)) :
    /\ L # ListOf(v, n, j)
    /\ v' = [v EXCEPT !.sl = {r \in v.sl : ~(r[1] = n /\ r[2] = j)} \cup {<<n, j, x[1], x[2]>> : x \in L}]
    /\ gh' = IF j = Own THEN [gh EXCEPT !.known = gh.known \cup {n}] ELSE gh
    /\ H(<<[op |-> "env", k |-> "list", ns |-> n, jid |-> JD(j), rows |-> RowsD(L)]>>)
    /\ UNCHANGED <<g, alive, pc>>
EnvBundle == \E n \in Pick(NsSet), j \in Pick(AllJ) : \E d \in Pick(DevsOf(j)), c \in PickC(IkVars), how \in PickHow({"good", "badsig"}) :
    /\ v' = [v EXCEPT !.sb = {r \in v.sb : ~(r[1] = n /\ r[2] = j /\ r[3] = d)}
                                \cup {<<n, j, d, Ik(j, d, c), "x", how = "good", Fresh("q"), Fresh("qs")>>}]
    /\ H(<<[op |-> "env", k |-> "bundle", ns |-> n, jid |-> JD(j), dev |-> d, how |-> how, ikv |-> c]>>)
    /\ UNCHANGED <<g, alive, pc, gh>>
EnvNoBundle == \E n \in Pick(NsSet), j \in Pick(AllJ) : \E d \in Pick(DevsOf(j)) :
    /\ BunRows(v, n, j, d) # {}
    /\ v' = [v EXCEPT !.sb = {r \in v.sb : ~(r[1] = n /\ r[2] = j /\ r[3] = d)}]
    /\ H(<<[op |-> "env", k |-> "nobundle", ns |-> n, jid |-> JD(j), dev |-> d]>>)
    /\ UNCHANGED <<g, alive, pc, gh>>
EnvOwnBundle == \E n \in Pick(NsSet) :
    /\ BunRows(v, n, Own, v.id) # {}
    /\ v' = [v EXCEPT !.sb = {r \in v.sb : ~(r[1] = n /\ r[2] = Own /\ r[3] = v.id)}, !.sbp = {r \in v.sbp : r[1] # n}]
    /\ gh' = [gh EXCEPT !.known = gh.known \cup {n}]
    /\ H(<<[op |-> "env", k |-> "ownbundle", ns |-> n, how |-> "del"]>>)
    /\ UNCHANGED <<g, alive, pc>>

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
LoadChoices == {s \in UNION {[1..k -> NsSet] : k \in 0..Cardinality(NsSet)} : \A i, k \in DOMAIN s : s[i] = s[k] => i = k}
DoCreate(ns, thr, l, f) ==
    Apply("create", [ns |-> ns, thr |-> thr, label |-> l, und |-> "undecided", own |-> Own, f |-> f],
          <<[op |-> "env", k |-> "restart"], [op |-> "create", ns |-> ns, thr |-> thr, label |-> l, und |-> "undecided", f |-> FD(f)]>>, pc)
OpCreate == \E ns \in Pick(LoadChoices), thr \in Pick(Thr), f \in PickF(FaultSets({"dl", "ul", "ub", "db"})) : DoCreate(ns, thr, None, f)
OpUpdate == \E n \in Pick(NsSet), j \in Pick(AllJ), f \in PickF(FaultSets({"ul"})) : \E L \in Pick(ListChoices(j)) :
    Apply("update", [ns |-> n, jid |-> j, rows |-> L, f |-> f], <<[op |-> "update", ns |-> n, jid |-> JD(j), rows |-> RowsD(L), f |-> FD(f)]>>, pc)
OpRefresh == \E n \in Pick(NsSet), j \in Pick(AllJ), f \in PickF(FaultSets({"dl", "ul"})) :
    Apply("refresh", [ns |-> n, jid |-> j, f |-> f], <<[op |-> "refresh", ns |-> n, jid |-> JD(j), f |-> FD(f)]>>, pc)
DoRefreshAll(j, f) == Apply("refresh_all", [jid |-> j, f |-> f], <<[op |-> "refresh_all", jid |-> JD(j), f |-> FD(f)]>>, pc)
OpRefreshAll == \E j \in Pick(AllJ), f \in PickF(FaultSets({"dl", "ul"})) : DoRefreshAll(j, f)
OpSetTrust == \E j \in Pick(AllJ), l \in Pick(Levels), c \in PickC(IkVars) : \E d \in Pick(DevsOf(j)) :
    Apply("set_trust", [jid |-> j, ik |-> Ik(j, d, c), level |-> l, f |-> NoF],
          <<[op |-> "set_trust", jid |-> JD(j), dev |-> d, ikv |-> c, level |-> l]>>, pc)
OpSetLabel == \E l \in Pick(LabelSet), f \in PickF(FaultSets({"dl", "ul"})) :
    Apply("set_label", [label |-> l, f |-> f], <<[op |-> "set_label", label |-> l, f |-> FD(f)]>>, pc)
OpInfo == \E j \in Pick(AllJ), f \in PickF(FaultSets({"dlb"})) :
    Apply("info", [jid |-> j, f |-> f], <<[op |-> "info", jid |-> JD(j), f |-> FD(f)]>>, pc)
OpBefore == Apply("before", [f |-> NoF], <<[op |-> "before"]>>, pc)
DoAfter(f) == Apply("after", [f |-> f], <<[op |-> "after", f |-> FD(f)]>>, pc)
OpAfter == \E f \in PickF(FaultSets({"send"})) : DoAfter(f)
OpEnsure == \E f \in PickF(FaultSets({"dl", "ul", "ub"})) : Apply("ensure", [f |-> f], <<[op |-> "ensure", f |-> FD(f)]>>, pc)
OpReplace == \E j \in Pick(Accts), f \in PickF(FaultSets({"dlb", "send"})) : \E d \in Pick(DevsOf(j)) :
    LET a == [jid |-> j, dev |-> d, f |-> f]
    IN  Apply("replace", a, <<[op |-> "replace", jid |-> j, dev |-> d, f |-> FD(f)]>>, pc)
DoEncrypt(J, prio, hasprio, da, fail, f) ==
    Apply("encrypt", [jids |-> SetToSeq(J), prio |-> prio, hasprio |-> hasprio, decall |-> da, decfail |-> fail, decset |-> <<>>, f |-> f],
          <<[op |-> "encrypt", jids |-> SetToSeq({JD(j) : j \in J}), hasprio |-> hasprio, prio |-> prio, decall |-> da, decfail |-> fail,
             f |-> FD(f)]>>, pc)
OpEncrypt == \E J \in Pick((SUBSET Accts) \ {{}}), da \in Pick(DecAll), f \in PickF(FaultSets({"dlb"})) :
    \E P \in Pick({g.loaded, Reverse(g.loaded)} \cup {<<n>> : n \in NsSet}) : DoEncrypt(J, P, P # g.loaded, da, FALSE, f)
OpPurgeBackend == \E n \in Pick(NsSet), f \in PickF(FaultSets({"dl", "ul", "db"})) :
    Apply("purge_backend", [ns |-> n, f |-> f], <<[op |-> "purge_backend", ns |-> n, f |-> FD(f)]>>, pc)
OpPurgeJid == \E j \in Pick(Accts) : Apply("purge_jid", [jid |-> j, f |-> NoF], <<[op |-> "purge_jid", jid |-> JD(j), f |-> FD(NoF)]>>, pc)

(* Incoming messages *)
KeyM(sid, e, n, good, kex) ==
    <<Own, v.id, sid, e, n, "k" \o ToString(step), good, kex # <<>>,
      IF kex = <<>> THEN None ELSE kex[1], IF kex = <<>> THEN None ELSE kex[2], IF kex = <<>> THEN None ELSE kex[3],
      IF kex = <<>> THEN None ELSE kex[4]>>
PkChoices(n) == {r[2] : r \in {q \in v.pki : q[1] = n /\ q[3] \in {"v", "h"}}} \cup {r[2] : r \in {q \in gh.dead : q[1] = n}}
\* how the harness refers to a pre key
PkD(n, pk) == IF <<n, pk>> \in gh.dead \/ <<n, pk, "h">> \in v.pki THEN "used" ELSE "offered"
Composed(key, p, kind, sid, e, nn, kex, unconf, flag, descr, j) ==
    LET m == [ns |-> key[1], sj |-> key[2], sd |-> key[3], empty |-> flag = "empty", pok |-> flag # "badpayload",
              kid |-> "k" \o ToString(step), pt |-> "P", keys |-> <<KeyM(sid, e, nn, flag # "badekm", kex)>>]
        p2 == [pc EXCEPT ![key] = [p EXCEPT !.sid = sid, !.e = e, !.n = nn, !.unconf = unconf,
                                            !.kex = IF kind = "new" THEN kex ELSE IF kind = "reply" /\ sid # p.sid THEN <<>> ELSE p.kex,
                                            !.log = <<m>>]]
    IN  Apply("decrypt", [msg |-> m, f |-> descr.f], <<[descr EXCEPT !.f = FD(descr.f)]>>, p2)
OpDecrypt == \E key \in Pick(PeerKeys), f \in PickF(FaultSets({"ub", "send", "dl"})), kind \in Pick(Kinds), flag \in PickFlag(Flags \cup {"ok"}) :
    LET p == pc[key]
        ds(m) == [op |-> "decrypt", ns |-> key[1], jid |-> key[2], dev |-> key[3], m |-> m, f |-> f]
    IN  CASE kind = "new" -> \E pk \in Pick(PkChoices(key[1])), c \in PickC(IkVars) :
                LET spk == {r[2] : r \in {q \in v.pki : q[1] = key[1] /\ q[3] = "s"}}
                    kex == <<Ik(key[2], key[3], c), "p" \o ToString(step), pk, IF spk = {} THEN "nospk" ELSE CHOOSE y \in spk : TRUE>>
                IN  Composed(key, p, "new", kex[2], 1, 1, kex, TRUE, flag, ds([kind |-> "new", flag |-> flag, pk |-> PkD(key[1], pk), ikv |-> c]), 0)
           [] kind \in {"next", "stale"} -> p.sid # None /\
                LET skip == IF kind = "stale" THEN Staleness ELSE 0
                IN Composed(key, p, kind, p.sid, p.e, p.n + skip + 1, IF p.unconf THEN p.kex ELSE <<>>, p.unconf, flag,
                         ds([kind |-> "next", flag |-> flag, skip |-> skip]), 0)
           [] kind = "reply" -> p.inb # <<>> /\
                Composed(key, p, "reply", p.inb[1], p.inb[2] + 1, 1, <<>>, FALSE, flag, ds([kind |-> "reply", flag |-> flag]), 0)
           [] kind = "replay" -> p.log # <<>> /\ flag = "ok" /\
                Apply("decrypt", [msg |-> p.log[1], f |-> f], <<[op |-> "decrypt", ns |-> key[1], jid |-> key[2], dev |-> key[3],
                                                                m |-> [kind |-> "replay", i |-> -1, flag |-> "ok"], f |-> FD(f)]>>, pc)

Act(op) ==
    CASE op = "list" -> EnvList [] op = "bundle" -> EnvBundle [] op = "nobundle" -> EnvNoBundle
      [] op = "ownbundle" -> EnvOwnBundle [] op = "create" -> OpCreate
      [] ~alive -> FALSE
      [] op = "update" -> OpUpdate [] op = "refresh" -> OpRefresh [] op = "refresh_all" -> OpRefreshAll
      [] op = "set_trust" -> OpSetTrust [] op = "set_label" -> OpSetLabel [] op = "info" -> OpInfo [] op = "before" -> OpBefore
      [] op = "after" -> OpAfter [] op = "ensure" -> OpEnsure [] op = "replace" -> OpReplace [] op = "encrypt" -> OpEncrypt
      [] op = "decrypt" -> OpDecrypt [] op = "purge_backend" -> OpPurgeBackend [] op = "purge_jid" -> OpPurgeJid

(***************************************************************************)
(* Prelude: published lists and bundles, first load, lists known           *)
(***************************************************************************)
EnvAll ==
    /\ v' = [v EXCEPT !.sl = {<<n, j, d, None>> : <<n, j, d>> \in UNION {{<<n, j, d>> : n \in NsSet, d \in DevsOf(j)} : j \in AllJ}},
                      !.sb = {<<n, j, d, Ik(j, d, 0), "x", TRUE, "q0", "qs0">> :
                                <<n, j, d>> \in UNION {{<<n, j, d>> : n \in NsSet, d \in DevsOf(j)} : j \in AllJ}}]
    /\ H(SetToSeq({[op |-> "env", k |-> "list", ns |-> n, jid |-> JD(j), rows |-> SetToSeq({<<d, None>> : d \in DevsOf(j)})] :
                    n \in NsSet, j \in AllJ})
         \o SetToSeq({[op |-> "env", k |-> "bundle", ns |-> x[1], jid |-> JD(x[2]), dev |-> x[3], how |-> "good", ikv |-> 0] :
                        x \in UNION {{<<n, j, d>> : n \in NsSet, d \in DevsOf(j)} : j \in AllJ}}))
    /\ UNCHANGED <<g, alive, gh, pc>>
AcctSeq == SetToSeq(AllJ)
PreLen == CASE Start = "empty" -> 0 [] Start = "ready" -> 2 + Len(AcctSeq) [] OTHER -> 3 + Len(AcctSeq)
Thr1 == CHOOSE x \in Thr : \A y \in Thr : x >= y
Pre == CASE step = 0 -> EnvAll
         [] step = 1 -> DoCreate(NSs, Thr1, None, NoF)
         [] step \in 2..(1 + Len(AcctSeq)) -> DoRefreshAll(AcctSeq[step - 1], NoF)
         [] OTHER -> DoAfter(NoF)

Next == /\ step < PreLen + MaxSteps
        /\ step' = step + 1
        /\ IF step < PreLen THEN Pre
           ELSE IF Record THEN LET op == Ops[RandomElement(DOMAIN Ops)] IN Act(op) \/ UNCHANGED <<v, g, alive, gh, pc, hist>>
           ELSE \E i \in DOMAIN Ops : Act(Ops[i])
        /\ (Record /\ step' = PreLen + MaxSteps) => PrintT("GEN|" \o ToJson([ns |-> NSs, descs |-> hist']))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants over the ghosts                                              *)
(***************************************************************************)
\* C13: the cache is the merge of the lists processed
Merge == \A j \in Accts :
    /\ Devs(v, j) = {r[3] : r \in {q \in gh.ever : q[2] = j}}
    /\ \A d \in Devs(v, j) :
        /\ NsOf(v, j, d) = {r[1] : r \in {q \in gh.ever : q[2] = j /\ q[3] = d}}
        /\ ActiveNs(v, j, d) = {r[1] : r \in {q \in gh.lists : q[2] = j /\ q[3] = d}}
        /\ Label(v, j, d) = (LET R == {r[3] : r \in {q \in gh.lastlab : q[1] = j /\ q[2] = d}} IN IF R = {} THEN None ELSE CHOOSE l \in R : TRUE)
\* C09: a consumed pre key never comes back
Dead == \A r \in gh.dead : <<r[1], r[2], "v">> \notin v.pki /\ <<r[1], r[2], "h">> \notin v.pki
\* C08: sessions initiated here are confirmed exactly when something was received over them
Confirmed == \A s \in v.ses : s[5] = "A" => (s[6] <=> s[4] \in gh.recv)
\* C11: exactly the sessions that came to require a reply are queued (if they still exist)
Owed == Queue(v) = gh.owe
\* C05: the state of a session is beyond every message key given out
Beyond == \A s \in v.ses : \A u \in gh.used : u[1] = s[4] => u[2] < s[11] \/ (u[2] = s[11] /\ u[3] <= s[12])
\* C10
Stocked == \A r \in v.pkv : r[2] > 0 /\ r[2] <= Stock
Inv == WellFormed(v, Own) \/ v.id = None
=============================================================================
