------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The identity key pair (C33): how it is generated, persisted, found      *)
(* again after interruptions, and the agreement of its two forms.          *)
(*                                                                         *)
(* A key pair is kept as its form ("seed" or "priv") and its key.  The     *)
(* application may put an existing private key there before the first load *)
(* (migration from other libraries).  disk: form flag and key, each may be *)
(* missing ("~").                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxOps

None == "~"
Complete(d) == d.form # None /\ d.key # None
Empty == [form |-> None, key |-> None]

(***************************************************************************)
(* Model                                                                   *)
(***************************************************************************)
VARIABLES disk,   \* what is persisted
          given,  \* the key pair given to the application last, and whether there is one
          origin, \* keys that exist: <<key, form it was made in>>
          hist,
          t, l    \* trace validation
vars == <<disk, given, origin, hist, t, l>>
Name(n) == "key" \o ToString(n)
FreshKey == Name(Cardinality(origin))

\* the states loading may leave behind and the results it may have; cut: interrupted
Gets(d, fresh) ==
    IF Complete(d) THEN {[disk |-> d, ok |-> TRUE], [disk |-> d, ok |-> FALSE]}
    \* a key of unknown form is not a key pair (such loads are not interrupted here)
    ELSE IF d.key # None THEN {[disk |-> [form |-> "seed", key |-> fresh], ok |-> TRUE]}
    ELSE {[disk |-> d, ok |-> FALSE], [disk |-> [form |-> "seed", key |-> None], ok |-> FALSE],
          [disk |-> [form |-> "seed", key |-> fresh], ok |-> TRUE], [disk |-> [form |-> "seed", key |-> fresh], ok |-> FALSE]}
Get == \E y \in Gets(disk, FreshKey) :
    /\ disk' = y.disk
    /\ given' = IF y.ok THEN y.disk ELSE given
    /\ origin' = IF y.disk.key # None /\ y.disk.key # disk.key THEN origin \cup {<<y.disk.key, "seed">>} ELSE origin
\* only before there is a key pair
Preset(form) ==
    /\ ~Complete(disk) /\ given = Empty
    /\ disk' = [form |-> form, key |-> FreshKey]
    /\ origin' = origin \cup {<<FreshKey, form>>}
    /\ UNCHANGED given
HalfPreset ==
    /\ disk = Empty /\ given = Empty
    /\ disk' = [form |-> "priv", key |-> None] /\ UNCHANGED <<given, origin>>
Leftover ==
    /\ disk = Empty /\ given = Empty
    /\ disk' = [form |-> None, key |-> FreshKey]
    /\ origin' = origin \cup {<<FreshKey, None>>} /\ UNCHANGED given

Init == disk = Empty /\ given = Empty /\ origin = {} /\ hist = 0 /\ t = 0 /\ l = 0
Next == /\ hist < MaxOps /\ hist' = hist + 1
        /\ (Get \/ HalfPreset \/ Leftover \/ \E f \in {"seed", "priv"} : Preset(f))
        /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Next]_vars

\* a key is only ever used in the form it was made in
Form == Complete(disk) => <<disk.key, disk.form>> \in origin
\* the key pair never changes once it was given out
Stable == given # Empty => disk = given
Kept == [][given # Empty => given' = given]_vars

(***************************************************************************)
(* Scenarios for the implementation: sequences of steps                    *)
(***************************************************************************)
Cuts == 0..5  \* interrupt the load at its k-th storage operation (5: never); fail or crash
Steps == {<<"get", k, h, s>> : k \in Cuts, h \in {"fail", "crash"}, s \in {"same", "new"}}
         \cup {<<"preset", 0, f, "new">> : f \in {"seed", "priv", "half"}}
Canon(s) == (s[1] = "get" /\ s[2] = 5) => s[3] = "fail"
Scenarios == {<<a, b, <<"get", 5, "fail", s>>, <<"get", 5, "fail", "new">>>> : a \in {x \in Steps : Canon(x)}, b \in {x \in Steps : Canon(x)}, s \in {"same", "new"}}
Scenarios3 == {<<a, b, c, <<"get", 5, "fail", "new">>>> : a \in {x \in Steps : Canon(x)}, b \in {x \in Steps : Canon(x)}, c \in {x \in Steps : Canon(x)}}
Leftovers == {<<<<"preset", 0, "key", "new">>, <<"get", 5, "fail", s>>, <<"get", 5, "fail", r>>>> : s, r \in {"same", "new"}}
GenInit == Init /\ \A s \in Leftovers \cup (IF MaxOps = 0 THEN Scenarios ELSE Scenarios3) : PrintT("GEN|" \o ToJson([steps |-> s]))

(***************************************************************************)
(* Traces: disk before/after, what was returned, facts about the keys      *)
(* computed with the reference implementation of the curve operations      *)
(***************************************************************************)
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
Disk(d) == [form |-> d.form, key |-> d.key]
Clauses(e) ==
    LET pre == Disk(e.pre)  post == Disk(e.post)
    IN  IF e.op # "get" THEN {}
        ELSE {<<"ik.x", ~e.cut => e.x = "ok">>,
              \* an existing key pair is never touched
              <<"ik.keep", Complete(pre) => post = pre>>,
              <<"ik.result", e.x = "ok" => e.form = post.form /\ e.key = post.key /\ Complete(post)>>,
              \* a new one is a seed that did not exist before
              <<"ik.fresh", (~Complete(pre) /\ Complete(post)) => post.form = "seed" /\ post.key \notin {y[1] : y \in origin} /\ e.new /\ e.len = 32>>,
              <<"ik.given", given # Empty => post = given>>,
              \* the forms agree
              <<"ik.pub", e.x = "ok" => e.pub = e.refpub>>,
              <<"ik.priv", e.x = "ok" => e.asform = "priv" /\ e.aspriv = e.refpriv /\ e.aspub = e.refpub>>,
              <<"ik.flags", e.x = "ok" => e.isseed = (e.form = "seed") /\ e.ispriv = (e.form = "priv")>>,
              <<"ik.sign", e.x = "ok" => e.signok>>,
              \* the fingerprint shows the whole key (C35)
              <<"fp.groups", e.x = "ok" => Len(e.fp) = 8 /\ \A i \in 1..Len(e.fp) : Len(e.fp[i]) = 8>>,
              <<"fp.key", e.x = "ok" => Concat(e.fp) = e.reffp>>}
TInit == /\ t \in DOMAIN Traces /\ l = 1 /\ disk = Empty /\ given = Empty /\ origin = {} /\ hist = 0
TStep == /\ l <= Len(Traces[t].events)
         /\ LET e == Traces[t].events[l]
            IN  /\ \A c \in {x \in Clauses(e) : ~x[2]} :
                     PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o e.x \o "|" \o c[1] \o "|FALSE|FALSE|FALSE")
                /\ disk' = Disk(e.post)
                /\ given' = IF e.op = "get" /\ e.x = "ok" THEN Disk(e.post) ELSE given
                /\ origin' = origin \cup (IF e.op = "preset" /\ e.post.key # None THEN {<<e.post.key, e.post.form>>} ELSE {})
                                    \cup (IF e.op = "get" /\ e.post.key # None /\ e.post.key # e.pre.key THEN {<<e.post.key, "seed">>} ELSE {})
         /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
TDone == /\ l = Len(Traces[t].events) + 1
         /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
         /\ l' = 0 /\ UNCHANGED <<disk, given, origin, hist, t>>
TNext == l > 0 /\ (TStep \/ TDone)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
