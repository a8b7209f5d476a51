------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* Typed access to the storage (C32).  The storage is a map from keys to   *)
(* JSON values; values are written as sequences of strings:                *)
(*   <<>> absent, <<"P", p>> primitive, <<"L", p1, ...>> list,             *)
(*   <<"D", k1, p1, k2, p2, ...>> dictionary (keys sorted),                *)
(*   <<"B", b>> written as bytes, <<"N", n>> nested structure.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Prim == [none |-> {"none"}, bool |-> {"true", "false"}, int |-> {"0", "1", "-7", "big"}, float |-> {"1.5", "2.0"},
         str |-> {"s:", "s:abcd", "s:uni", "s:0"}]
Types == DOMAIN Prim
TypeOf(p) == CHOOSE y \in Types : p \in Prim[y]
All == UNION {Prim[y] : y \in Types}
Kinds == {"load", "bytes"} \cup {"primitive", "optional", "list", "dict"}

\* "yes": has the type; "lax": Python counts truth values as integers, the documentation does not say
Has(y, p) == IF p \in Prim[y] THEN "yes" ELSE IF y = "int" /\ p \in Prim["bool"] THEN "lax" ELSE "no"
Elems(s) == CASE s[1] = "L" -> {s[i] : i \in 2..Len(s)}
              [] s[1] = "D" -> {s[i] : i \in {k \in 3..Len(s) : k % 2 = 1}}
              [] OTHER -> {}
Every(y, s) == LET M == {Has(y, p) : p \in Elems(s)}
               IN  IF "no" \in M THEN "no" ELSE IF "lax" \in M THEN "lax" ELSE "yes"
Match(kind, y, s) ==
    CASE kind = "load" -> IF s[1] = "B" THEN "any" ELSE "yes"
      [] kind = "bytes" -> IF s[1] = "B" THEN "yes" ELSE IF s[1] = "P" /\ s[2] \in Prim["str"] THEN "any" ELSE "no"
      [] s[1] = "B" -> IF kind \in {"primitive", "optional"} THEN "any" ELSE "no" \* how bytes are written is not specified
      [] kind = "primitive" -> IF s[1] = "P" THEN Has(y, s[2]) ELSE "no"
      [] kind = "optional" -> IF s[1] = "P" THEN (IF s[2] = "none" THEN "yes" ELSE Has(y, s[2])) ELSE "no"
      [] kind = "list" -> IF s[1] = "L" THEN Every(y, s) ELSE "no"
      [] kind = "dict" -> IF s[1] = "D" THEN Every(y, s) ELSE "no"
Ok(s) == [x |-> "ok", v |-> s]
Refused == [x |-> "TypeError", v |-> <<>>]
Allowed(kind, y, s) ==
    IF s = <<>> THEN {[x |-> "nothing", v |-> <<>>]}
    ELSE CASE Match(kind, y, s) = "yes" -> {Ok(s)}
           [] Match(kind, y, s) = "lax" -> {Ok(s), Refused}
           [] Match(kind, y, s) = "no" -> {Refused}
           [] OTHER -> {}  \* anything

(***************************************************************************)
(* The values tried, and what has to hold of the definition itself         *)
(***************************************************************************)
Some == {"none", "true", "1", "2.0", "s:abcd", "s:0"}
Universe == {<<"P", p>> : p \in All} \cup {<<"L">>, <<"D">>} \cup {<<"L", p>> : p \in All} \cup {<<"L", p, q>> : p, q \in Some}
            \cup {<<"D", "k", p>> : p \in All} \cup {<<"D", "k", p, "l", q>> : p, q \in Some}
            \cup {<<"B", b>> : b \in {"empty", "zero", "ff", "all", "key", "utf8", "b64"}} \cup {<<"N", n>> : n \in {"LL", "LD", "DL", "DD"}}
Sound == \A s \in Universe : \A y \in Types :
            \* every value can be loaded in some way, and a flat value only as what it is
            /\ \E k \in Kinds, z \in Types : Ok(s) \in Allowed(k, z, s) \/ Allowed(k, z, s) = {}
            /\ \A k \in Kinds \ {"load"} : Ok(s) \in Allowed(k, y, s) =>
                    (CASE k = "list" -> s[1] = "L" [] k = "dict" -> s[1] = "D" [] k = "bytes" -> s[1] = "B" [] OTHER -> s[1] = "P")

(***************************************************************************)
(* Traces: [op, key, v] and [op = "load", kind, type, key, r, m]           *)
(***************************************************************************)
VARIABLES t, l, disk
vars == <<t, l, disk>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
KeySet == {"k1", "k2"}

Clauses(e) ==
    IF e.op # "load" THEN {<<"ty.x", e.x = "ok">>}
    ELSE {<<"ty.res", LET A == Allowed(e.kind, e.type, disk[e.key]) IN A = {} \/ [x |-> e.x, v |-> e.v] \in A>>,
          <<"ty.maybe", /\ e.x = "ok" => e.just /\ ~e.nothing /\ e.dflt = "value" /\ e.fj = "value"
                        /\ e.x = "nothing" => ~e.just /\ e.nothing /\ e.dflt = "default" /\ e.fj = "NothingException">>}
Init == t \in DOMAIN Traces /\ l = 1 /\ disk = [k \in KeySet |-> <<>>]
Step == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l]
           IN  /\ \A c \in {x \in Clauses(e) : ~x[2]} :
                    PrintT("FAIL|" \o Traces[t].id \o "|" \o ToString(l) \o "|" \o e.op \o "|" \o e.x \o "|" \o c[1] \o "|FALSE|FALSE|FALSE")
               /\ disk' = CASE e.op = "store" -> [disk EXCEPT ![e.key] = e.v]
                            [] e.op = "delete" -> [disk EXCEPT ![e.key] = <<>>]
                            [] OTHER -> disk
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Traces[t].events) + 1
        /\ PrintT("DONE|" \o Traces[t].id \o "|" \o ToString(l - 1))
        /\ l' = 0 /\ t' = t /\ disk' = disk
Next == l > 0 /\ (Step \/ Done)
Spec == Init /\ [][Next]_vars

\* generator: prints every value once
GenInit == t = 0 /\ l = 0 /\ disk = <<>> /\ Assert(Sound, "Sound") /\ \A s \in Universe : PrintT("GEN|" \o ToJson([v |-> s]))
=============================================================================
