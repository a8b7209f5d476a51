------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace specification: checks traces recorded from the real library       *)
(* against Omemo.tla.  Input: one JSON object per line,                    *)
(* {id, cfg, events}; every event carries operation, arguments, outcome,   *)
(* result, externally visible effects (in order) and the projected state   *)
(* afterwards.                                                             *)
(*                                                                         *)
(* Each trace is one initial state; each event is one step.  The expected  *)
(* outcome is computed by Omemo!ExpOf from the *observed* state before the *)
(* event, so one deviation does not hide the rest of the trace.  Every     *)
(* failing clause is printed by name; verdicts are total.                  *)
(***************************************************************************)
EXTENDS Omemo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t,      \* index of the trace
          l,      \* next event
          g,      \* volatile state of the running library
          taint,  \* backends whose published data is no longer the library's own doing
          used    \* message keys given out: <<sid, e, n>>

vars == <<t, l, g, taint, used>>

S(q) == {q[i] : i \in DOMAIN q}
ViewOf(p) ==
    [id |-> p.id, ik |-> p.ik, dev |-> S(p.dev), ns |-> S(p.ns), act |-> S(p.act), lab |-> S(p.lab), pin |-> S(p.pin),
     has |-> S(p.has), tr |-> S(p.tr), qj |-> S(p.qj), qd |-> S(p.qd), ses |-> S(p.ses), seen |-> S(p.seen),
     pkv |-> S(p.pkv), pki |-> S(p.pki), bd |-> S(p.bd), sl |-> S(p.sl), sb |-> S(p.sb), sbp |-> S(p.sbp)]
FaultsOf(f) == [dl |-> S(f.dl), ul |-> S(f.ul), ub |-> S(f.ub), db |-> S(f.db), send |-> S(f.send), dlb |-> S(f.dlb)]
ArgsOf(ev) ==
    LET a0 == [ev.a EXCEPT !.f = FaultsOf(ev.a.f)]
    IN  IF ev.op = "update" THEN [a0 EXCEPT !.rows = S(ev.a.rows)] ELSE a0

NoGhost == [own |-> "~", loaded |-> <<>>, sync |-> TRUE, thr |-> 99, und |-> "undecided"]

(***************************************************************************)
(* Effects                                                                 *)
(***************************************************************************)
Eff(ev, k) == SelectSeq(ev.eff, LAMBDA e : e.k = k)
SendRow(e) == \* <<ns, jid, dev, sid, e, n, kex, kik, kpk, kspk>> of a single-recipient message
    LET k == e.msg.keys[1] IN <<e.msg.ns, k[1], k[2], k[3], k[4], k[5], k[8], k[9], k[11], k[12]>>
MsgRows(m) == {<<m.ns, k[1], k[2], k[3], k[4], k[5], k[8], k[9], k[11], k[12]>> : k \in S(m.keys)}

\* published own lists/bundles while the effects happen: {<<"l"|"b", ns>>}
Pub0(v, own) == {<<"l", r[1]>> : r \in {x \in v.sl : x[2] = own /\ x[3] = v.id}}
                \cup {<<"b", r[1]>> : r \in {x \in v.sb : x[2] = own /\ x[3] = v.id}}
PubStep(P, e, id) ==
    IF ~e.ok THEN P
    ELSE CASE e.k = "ub" -> P \cup {<<"b", e.ns>>}
           [] e.k = "db" -> P \ {<<"b", e.ns>>}
           [] e.k = "ul" -> IF \E r \in S(e.rows) : r[1] = id THEN P \cup {<<"l", e.ns>>} ELSE P \ {<<"l", e.ns>>}
           [] OTHER -> P
RECURSIVE PubBad(_, _, _)
PubBad(P, es, id) == \* backends that are listed without bundle at some point
    LET bad == {x[2] : x \in {y \in P : y[1] = "l" /\ <<"b", y[2]>> \notin P}}
    IN  IF es = <<>> THEN bad ELSE bad \cup PubBad(PubStep(P, Head(es), id), Tail(es), id)

(***************************************************************************)
(* Comparison of the observed state with the expected one.  Each clause is *)
(* <<name, holds>>.                                                        *)
(***************************************************************************)
Vis(R, D) == {r \in R : <<r[1], r[2]>> \in D}
NotOwnIk(R, own, ik) == {r \in R : ~(r[1] = own /\ r[2] = ik)}
Interval(pre, exp, post) == (pre \cap exp) \subseteq post /\ post \subseteq (pre \cup exp)

\* rows <<k1, k2, value>>: each key keeps having a value, which is the old, the new or one written on the way
MapBetween(pre, exp, post, mid) ==
    /\ \A r \in pre \cap exp : \E q \in post : q[1] = r[1] /\ q[2] = r[2] /\ (q = r \/ q \in mid)
    /\ post \subseteq (pre \cup exp \cup mid)
    /\ \A r, q \in post : r[1] = q[1] /\ r[2] = q[2] => r = q

OwnBun(v, own) == {r \in v.sb : r[2] = own /\ r[3] = v.id}
NotOwnBun(v, own, id) == {r \in v.sb : ~(r[2] = own /\ r[3] = id)}

\* offered and hidden pre keys; freshly generated ones may appear (offered) where the bundle may change
VH(v) == {r \in v.pki : r[3] \in {"v", "h"}}
OldPk(post, pre, e) == {r \in VH(post) : ~(r[3] = "v" /\ r[1] \in e.bdchg /\ \A q \in pre.pki : q[2] # r[2])}

\* exact comparison, for completed calls and failures with a defined outcome
Exact(pre, e, post, own, faults, loose) ==
    LET x == e.v
        D == post.dev \cup x.dev
        mayPin == x.pin \cup MayLearn(x, faults, own)
    IN  {<<"id", post.id = x.id>>, <<"ik", post.ik = x.ik>>,
         <<"dev", post.dev = x.dev>>,
         <<"ns", Vis(post.ns, D) = Vis(x.ns, D)>>,
         <<"act", Vis(post.act, D) = Vis(x.act, D)>>,
         <<"lab", Vis(post.lab, D) = Vis(x.lab, D)>>,
         <<"pin", IF loose THEN x.pin \subseteq post.pin /\ post.pin \subseteq mayPin ELSE post.pin = x.pin>>,
         <<"tr", NotOwnIk(post.tr, own, post.ik) = NotOwnIk(x.tr, own, post.ik)>>,
         <<"q", Queue(post) = Queue(x)>>,
         <<"ses", post.ses = x.ses>>,
         <<"seen", post.seen = x.seen>>,
         <<"pkv", post.pkv = x.pkv>>,
         <<"pki", OldPk(post, pre, e) = VH(x)>>,
         <<"spk", \A r \in pre.pki : (r[3] = "s" /\ \E b \in post.pkv : b[1] = r[1]) => r \in post.pki>>,
         <<"bd", \A r \in pre.bd : r[1] \notin e.bdchg => r \in post.bd>>,
         <<"sl", post.sl = x.sl>>,
         <<"sb", NotOwnBun(post, own, post.id) = NotOwnBun(x, own, post.id)
                 /\ {r \in OwnBun(post, own) : r[1] \notin e.ub} = {r \in OwnBun(x, own) : r[1] \notin e.ub}>>,
         <<"pub", \A n \in e.ub : \E r \in OwnBun(post, own) : r[1] = n /\ r[5] = LocalDig(post, n)>>}

ForeignOnly(v, own) ==
    LET f(R) == {r \in R : r[1] # own}
    IN  [v EXCEPT !.dev = f(v.dev), !.ns = f(v.ns), !.act = f(v.act), !.lab = f(v.lab), !.pin = f(v.pin), !.tr = f(v.tr)]

\* interrupted or partially failed calls: everything is old, new, or a value written on the way
Partial(pre0, e, post0, own, faults, decset) ==
    LET \* rows about the own account are meaningless while the own device has no id yet
        cut(v) == IF FirstRun(pre0) /\ FirstRun(post0) THEN ForeignOnly(v, own) ELSE v
        \* what is left of devices that are on no list (of earlier interrupted calls) is overwritten once they are listed
        listed(v, D) == [v EXCEPT !.ns = Vis(@, D), !.act = Vis(@, D), !.lab = Vis(@, D)]
        pre == listed(cut(pre0), pre0.dev \cup post0.dev)
        post == listed(cut(post0), pre0.dev \cup post0.dev)
        x == listed(cut(e.v), pre0.dev \cup post0.dev)
        learn == MayLearn(x, faults, own) \cup MayLearn(pre, faults, own)
        n(v) == [r \in {y[1] : y \in v.pkv} |-> PkCount(v, r)]
    IN  {<<"id", post.id \in {pre.id, x.id}>>, <<"ik", pre.ik # None => post.ik = pre.ik>>,
         <<"dev", Interval(pre.dev, x.dev, post.dev)>>,
         <<"ns", /\ {r \in pre.ns \cap x.ns : r[3] \in ActKeys(pre, r[1], r[2])} \subseteq post.ns
                 /\ post.ns \subseteq (pre.ns \cup x.ns)>>,
         <<"act", /\ (pre.act \cap x.act) \subseteq post.act
                  /\ post.act \subseteq (pre.act \cup x.act \cup Leaving(pre, own, e.going).act)
                  /\ \A r, q \in post.act : r[1] = q[1] /\ r[2] = q[2] /\ r[3] = q[3] => r = q>>,
         <<"lab", MapBetween(pre.lab, x.lab, post.lab, {<<r[2], r[3], r[4]>> : r \in {q \in pre.sl \cup x.sl :
                                                                     q[4] # None \/ <<q[2], q[3]>> \notin pre.dev}})>>,
         <<"pin", (pre.pin \cap x.pin) \subseteq post.pin /\ post.pin \subseteq (pre.pin \cup x.pin \cup learn)>>,
         <<"tr", MapBetween(NotOwnIk(pre.tr, own, post.ik), NotOwnIk(x.tr, own, post.ik), NotOwnIk(post.tr, own, post.ik), decset)>>,
         <<"q", Interval(Queue(pre), Queue(x), Queue(post))>>,
         <<"ses", (pre.ses \cap x.ses) \subseteq post.ses /\ post.ses \subseteq (pre.ses \cup x.ses \cup e.mid)>>,
         <<"seen", Interval(pre.seen, x.seen, post.seen)>>,
         <<"pkv", \A r \in post.pkv : r[2] <= Stock /\ (PkCount(pre, r[1]) > 0 => r[2] >= PkCount(pre, r[1]) - 1)>>,
         <<"pki", Interval(VH(pre), VH(x), OldPk(post, pre, e))>>,
         <<"bd", \A r \in pre.bd : r[1] \notin e.bdchg => r \in post.bd>>,
         <<"sl", Interval(pre.sl, x.sl, post.sl)>>,
         <<"sb", NotOwnBun(post, own, post.id) = NotOwnBun(pre, own, post.id)>>}

(***************************************************************************)
(* Clauses about the effects                                               *)
(***************************************************************************)
EffClauses(ev, pre, e, post, gg, a) ==
    LET own == gg.own
        ubs == Eff(ev, "ub")  uls == Eff(ev, "ul")  dbs == Eff(ev, "db")  sends == Eff(ev, "send")
        okSends == SelectSeq(sends, LAMBDA s : s.ok)
        part == e.part \/ ev.flt
        failing(ns, set, name) == ns \in set /\ (part \/ name \in e.hit)
    IN  {<<"eff.ub", /\ \A i \in DOMAIN ubs : /\ ubs[i].ns \in e.ub \/ failing(ubs[i].ns, a.f.ub, "ub")
                                              /\ ubs[i].jid = own
                                              /\ ubs[i].dev = post.id
                     /\ part \/ \A n \in e.ub : \E i \in DOMAIN ubs : ubs[i].ok /\ ubs[i].ns = n>>,
         <<"eff.ul", /\ \A i \in DOMAIN uls : uls[i].ns \in e.ul \/ failing(uls[i].ns, a.f.ul, "ul")
                     \* (a list that carries the label already needs no upload)
                     /\ part \/ \A n \in {q \in e.ul : ev.op # "set_label" \/ ListOf(pre, q, own) # ListOf(e.v, q, own)} :
                                \E i \in DOMAIN uls : uls[i].ok /\ uls[i].ns = n
                     \* whatever is published is the expected list
                     /\ \A i \in DOMAIN uls : uls[i].ns \in e.ul => S(uls[i].rows) = ListOf(e.v, uls[i].ns, own)>>,
         <<"eff.db", /\ \A i \in DOMAIN dbs : (dbs[i].ns \in e.db \/ failing(dbs[i].ns, a.f.db, "db")) /\ dbs[i].dev = post.id
                     /\ part \/ \A n \in e.db : \E i \in DOMAIN dbs : dbs[i].ok /\ dbs[i].ns = n>>,
         <<"eff.send", /\ \A i \in DOMAIN sends : sends[i].ok \/ part \/ ev.op = "replace" \/ "send" \in e.hit
                       /\ \A i \in DOMAIN okSends :
                            /\ Len(okSends[i].msg.keys) = 1
                            /\ okSends[i].msg.empty /\ okSends[i].msg.sj = own /\ okSends[i].msg.sd = pre.id
                            /\ okSends[i].msg.ns = okSends[i].ns
                            /\ okSends[i].jid = okSends[i].msg.keys[1][1]
                            /\ okSends[i].msg.kid = okSends[i].msg.keys[1][6]>>,
         <<"eff.sends", /\ Cardinality({<<SendRow(okSends[i])[1], SendRow(okSends[i])[2], SendRow(okSends[i])[3]>>
                                          : i \in DOMAIN okSends}) = Len(okSends)
                        /\ \A i \in DOMAIN okSends : \/ SendRow(okSends[i]) \in e.sends
                                                     \/ part /\ ev.op = "replace"
                        /\ part \/ \A s \in e.sends : \E i \in DOMAIN okSends : SendRow(okSends[i]) = s>>,
         \* the right session, the right position, the key exchange exactly while it is needed
         <<"eff.kex", \A i \in DOMAIN okSends : \A s \in e.sends : \A r \in {SendRow(okSends[i])} :
                            (\A k \in 1..4 : r[k] = s[k]) => \A k \in 7..10 : r[k] = s[k]>>,
         <<"eff.pos", \A i \in DOMAIN okSends : \A s \in e.sends : \A r \in {SendRow(okSends[i])} :
                            (\A k \in 1..4 : r[k] = s[k]) => r[5] = s[5] /\ r[6] = s[6]>>,
         <<"eff.order", ev.op \in {"create", "purge_backend"} =>
                            LET P == Pub0(pre, own)
                                bad0 == {x[2] : x \in {y \in P : y[1] = "l" /\ <<"b", y[2]>> \notin P}}
                            IN  PubBad(P, ev.eff, post.id) \subseteq bad0>>}

(***************************************************************************)
(* Clauses about results                                                   *)
(***************************************************************************)
InfoOk(r, v, gg, j, D) ==
    /\ S(r.dev) = {InfoRow(v, gg, j, d) : d \in D}
    /\ Len(r.dev) = Cardinality(D)
    /\ S(r.ns) = InfoNs(v, j, D)
    /\ S(r.act) = InfoAct(v, j, D)

EncClauses(ev, pre, e, gg, a) ==
    LET msgs == ev.r.msgs
        rows == UNION {MsgRows(msgs[i]) : i \in DOMAIN msgs}
        addr(R) == {<<r[2], r[3]>> : r \in R}
        tqs == Eff(ev, "tq")
        ask == /\ Len(tqs) = (IF e.asked THEN 1 ELSE 0)
               /\ e.asked /\ Len(tqs) = 1 =>
                    /\ {<<r[1], r[2], r[3]>> : r \in S(tqs[1].info.dev)} = e.tq
                    /\ tqs[1].id = a.ident
    IN  {<<"enc.ask", ev.flt \/ ask>>,
         <<"enc.untrusted", \A r \in rows : <<r[2], r[3]>> \notin {<<u[1], u[2]>> : u \in e.untrusted}>>,
         <<"enc.err", ev.x = "ok" => S(ev.r.errs) = e.errs /\ Len(ev.r.errs) = Cardinality(e.errs)>>,
         <<"enc.nojids", ev.x = "NoEligibleDevices" => S(ev.r.jids) = e.nojids>>,
         <<"enc.addr", ev.x = "ok" => addr(rows) = addr(e.keys)>>,
         <<"enc.backend", ev.x = "ok" => {<<r[1], r[2], r[3]>> : r \in rows} = {<<r[1], r[2], r[3]>> : r \in e.keys}>>,
         <<"enc.once", ev.x = "ok" => \A i, k \in DOMAIN msgs : i # k =>
                            msgs[i].ns # msgs[k].ns /\ addr(MsgRows(msgs[i])) \cap addr(MsgRows(msgs[k])) = {}>>,
         <<"enc.dup", ev.x = "ok" => \A i \in DOMAIN msgs : Len(msgs[i].keys) = Cardinality(addr(MsgRows(msgs[i])))>>,
         <<"enc.kex", ev.x = "ok" => {<<r[1], r[2], r[3], r[7], r[8], r[9], r[10]>> : r \in rows}
                                     = {<<r[1], r[2], r[3], r[7], r[8], r[9], r[10]>> : r \in e.keys}>>,
         <<"enc.pos", ev.x = "ok" => {<<r[1], r[2], r[3], r[4], r[5], r[6]>> : r \in rows}
                                     = {<<r[1], r[2], r[3], r[4], r[5], r[6]>> : r \in e.keys}>>,
         <<"enc.msg", \A i \in DOMAIN msgs :
                /\ msgs[i].sj = gg.own /\ msgs[i].sd = pre.id /\ ~msgs[i].empty
                /\ <<msgs[i].ns, msgs[i].pt>> \in S(a.pt)
                /\ msgs[i].pkm = msgs[i].kid
                /\ \A k \in S(msgs[i].keys) : k[6] = msgs[i].kid>>,
         <<"enc.reuse", \A r \in rows : <<r[4], r[5], r[6]>> \notin used>>}

\* device ids are logged in two parts; the range is 1..2^31 - 1 unless the application configures another one
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
InRange(n, lo, hi) == /\ n # <<>>
                      /\ Leq(IF lo = <<>> THEN <<0, 1>> ELSE lo, n)
                      /\ Leq(n, IF hi = <<>> THEN <<32767, 65535>> ELSE hi)

ResClauses(ev, pre, e, post, gg, a) ==
    CASE ev.op = "info" /\ ev.x = "ok" ->
            {<<"info", InfoOk(ev.r.info, e.v, gg, a.jid, Reported(e.v, a.jid))>>}
      [] ev.op = "own_info" /\ ev.x = "ok" ->
            {<<"info", ev.r.own = pre.id /\ InfoOk(ev.r.info, e.v, gg, gg.own, Reported(e.v, gg.own))>>}
      [] ev.op = "scl" /\ ev.x = "ok" -> {<<"scl", S(ev.r.scl) = SclRows(pre, gg, a)>>}
      [] ev.op = "encrypt" -> EncClauses(ev, pre, e, gg, a)
      [] ev.op = "decrypt" /\ ev.x = "ok" /\ "ok" \in e.x ->
            {<<"dec.pt", ev.r.pt = DecryptPt(a)>>, <<"dec.kid", ev.r.kid = DecryptKid(pre, gg, a)>>,
             <<"dec.info", InfoOk(ev.r.info, e.v, gg, a.msg.sj, {a.msg.sd})>>}
      [] ev.op = "replace" /\ ev.x = "ok" ->
            {<<"unsucc", LET U == S(ev.r.unsucc)  E == {<<r[1], r[4]>> : r \in e.errs}
                        IN  /\ {u[1] : u \in {q \in U : q \notin E}} \subseteq (IF ev.flt THEN {q[1] : q \in {z \in U : z[2] = "StorageException"}} ELSE {})
                            /\ {u[1] : u \in E} \subseteq {u[1] : u \in U}
                            /\ Len(ev.r.unsucc) = Cardinality({u[1] : u \in U})>>}
      \* (also if the load fails later on)
      [] ev.op = "create" /\ ev.x # "ok" /\ FirstRun(pre) /\ ~FirstRun(post) ->
            {<<"newid", \A n \in S(ev.a.ns) : post.id \notin ListDevs(ListOf(pre, n, a.own))>>}
      [] ev.op = "create" /\ ev.x = "ok" /\ FirstRun(pre) ->
            {<<"newid", /\ \A n \in S(ev.a.ns) : post.id \notin ListDevs(ListOf(pre, n, a.own))
                        /\ InRange(ev.r.idn, ev.a.idmin, ev.a.idmax)>>,
             <<"oldik", pre.ik # None => post.ik = pre.ik>>}
      [] ev.op = "create" /\ ev.x = "ok" -> {<<"newid", TRUE>>}
      [] OTHER -> {}

(***************************************************************************)
(* All clauses of one event                                                *)
(***************************************************************************)
Skip(ev) == ev.op \in {"env", "init"}

Clauses(ev, pre, post, gg, a) ==
    LET e == ExpOf(ev.op, pre, gg, a, post)
        own == IF ev.op = "create" THEN ev.a.own ELSE gg.own
        g2 == IF ev.op = "create" THEN CreateGhost(a) ELSE gg
        loose == ev.op \in {"create", "purge_backend"}
        unexpected == ev.x \notin e.x
        \* a storage failure during session replacement is reported instead of raised
        caught == ev.flt /\ ev.op = "replace" /\ ev.x = "ok"
        crashed == (ev.flt /\ ev.x \in {"Crash", "StorageException"}) \/ caught
        state == IF crashed \/ e.part THEN Partial(pre, e, post, own, a.f, IF ev.op = "encrypt" THEN S(a.decset) ELSE {})
                 ELSE IF unexpected /\ ev.x # "ok" THEN {}
                 ELSE Exact(pre, e, post, own, a.f, loose)
    IN  {<<"x", ~unexpected \/ crashed>>,
         <<"doc", ev.x = "ok" \/ ev.x \in Documented(ev.op) \/ (ev.flt /\ ev.x \in {"Crash", "StorageException"})>>,
         <<"args", ev.arg0 = ev.arg1>>,
         <<"wf", WellFormed(post, own) \/ ~WellFormed(pre, own)>>,
         <<"sespin", SessionsPinned(pre, post)>>,
         <<"repin", \A r \in pre.pin : (ev.op = "purge_jid" /\ r[1] = a.jid) \/ r \in post.pin
                                        \/ (FirstRun(pre) /\ r[1] = own)>>,
         \* whatever an interrupted purge leaves behind is found by the next one
         <<"purgeable", ev.op = "purge_jid" =>
                /\ \A r \in pre.pin \cap post.pin : (r[1] = a.jid /\ <<r[1], r[2]>> \in pre.dev) => <<r[1], r[2]>> \in post.dev
                /\ \A r \in pre.tr \cap post.tr : (r[1] = a.jid /\ \E d \in Devs(pre, a.jid) : r[2] \in Pins(pre, a.jid, d))
                                               => \E d \in Devs(post, a.jid) : r[2] \in Pins(post, a.jid, d)>>,
         <<"published", (ev.op = "create" /\ ev.x = "ok") => \A n \in SeqRange(ev.a.ns) : n \in taint \/ PublishedNs(post, g2, n)>>,
         <<"quiet", (ev.op = "decrypt" /\ ev.x # "ok" /\ ev.x \notin {"Crash", "StorageException"} /\ e.hit \cap {"ub", "send"} = {}) =>
                        /\ post.ses = pre.ses /\ post.seen = pre.seen /\ post.pkv = pre.pkv /\ post.pki = pre.pki
                        /\ post.bd = pre.bd /\ Queue(post) = Queue(pre)
                        /\ OwnBun(post, own) = OwnBun(pre, own)
                        /\ Eff(ev, "send") = <<>> /\ Eff(ev, "ub") = <<>> >>,
         <<"encatomic", (ev.op = "encrypt" /\ ev.x \notin {"ok", "Crash", "StorageException"}) => post.ses = pre.ses /\ post.seen = pre.seen>>,
         <<"pkgone", (ev.op = "decrypt" /\ "ok" \in e.x /\ ev.x = "ok") =>
                        \A k \in {q \in S(a.msg.keys) : q[1] = own /\ q[2] = pre.id /\ q[8]} :
                            /\ <<a.msg.ns, k[11], "v">> \notin post.pki
                            /\ <<a.msg.ns, k[11]>> \notin post.sbp \/ a.msg.ns \in taint
                            /\ gg.sync \/ <<a.msg.ns, k[11], "h">> \notin post.pki>>,
         <<"stock", \A r \in post.pkv : r[2] <= Stock>>,
         <<"syncsend", ev.op \notin {"after", "replace"} /\ gg.sync => Eff(ev, "send") = <<>> >>}
        \cup state
        \cup EffClauses(ev, pre, e, post, g2, a)
        \cup ResClauses(ev, pre, e, post, gg, a)

Failing(ev, pre, post, gg) ==
    LET a == ArgsOf(ev)
    IN  IF Skip(ev) THEN {}
        ELSE {c[1] : c \in {x \in Clauses(ev, pre, post, gg, a) : ~x[2]}}

(***************************************************************************)
(* The trace machine                                                       *)
(***************************************************************************)
Init == /\ t \in DOMAIN Traces
        /\ l = 2
        /\ g = [NoGhost EXCEPT !.own = Traces[t].cfg.own]
        /\ taint = {}
        /\ used = {}

\* The process could have died at any point of the call: a state observed in the middle of the call is judged as if the
\* call had been interrupted there.
Interrupted(ev, m) == [ev EXCEPT !.x = "Crash", !.flt = TRUE, !.eff = SubSeq(ev.eff, 1, m.n), !.r.msgs = <<>>, !.post = m.post]

Report(ev, F) == \A c \in F : PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o ev.op \o "|" \o ev.x \o "|" \o c
                                        \o "|" \o ToString(ev.flt) \o "|" \o ToString(g.sync) \o "|" \o ToString(ev.par))

Step ==
    /\ l <= Len(Traces[t].events)
    /\ LET ev == Traces[t].events[l]
           pre == ViewOf(Traces[t].events[l - 1].post)
           post == ViewOf(ev.post)
           F == Failing(ev, pre, post, g)
           keys == UNION {MsgRows(ev.r.msgs[i]) : i \in DOMAIN ev.r.msgs}
       IN  /\ F # {} => Report(ev, F)
           /\ \A i \in DOMAIN ev.mid :
                  LET iv == Interrupted(ev, ev.mid[i])
                      M == Failing(iv, pre, ViewOf(iv.post), g) \ {"args"}
                  IN  M # {} => Report(iv, M)
           /\ g' = IF ev.op \in {"env", "init"} THEN g ELSE GhostNext(g, ev.op, ev.a, ev.x)
           /\ taint' = CASE ev.op = "env" -> taint \cup S(ev.a.taint)
                         [] ev.op \notin {"env", "create"} /\ ev.x # "ok" /\ (ev.flt \/ ev.x \in {"BundleUploadFailed"}) ->
                                taint \cup {r[1] : r \in post.pkv}
                         [] ev.op = "ensure" /\ ev.x = "ok" -> taint \ SeqRange(g.loaded)
                         [] OTHER -> taint
           /\ used' = {u \in used : u[1] \notin Rebuilt(pre, post)} \cup {<<r[4], r[5], r[6]>> : r \in keys}
    /\ l' = l + 1
    /\ UNCHANGED t

Done == /\ l > Len(Traces[t].events)
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ UNCHANGED <<t, g, taint, used>>

Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars
=============================================================================
