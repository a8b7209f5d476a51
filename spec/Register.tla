------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* What a key of a storage is to its users: an atomic register (C22).      *)
(* A load, store or deletion takes effect at one point between its         *)
(* invocation and its response; a failing operation has no effect.         *)
(*                                                                         *)
(* The set of possible worlds of one key is tracked by subset construction:*)
(* a world is [val, done], where done records the outcome of the pending   *)
(* operations that have already taken effect in this world.                *)
(*                                                                         *)
(* Values: <<tag, text, bytes>>; operations:                               *)
(* [id, kind, typ, val] with kind "load"|"store"|"delete".                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == <<"nothing", "nothing", "nothing">>
World0(val) == [val |-> val, done |-> <<>>]
Fresh(val) == [w |-> {World0(val)}, p |-> {}]

IsDone(c, i) == \E k \in DOMAIN c.done : c.done[k][1] = i
Outcome(c, i) == LET k == CHOOSE k \in DOMAIN c.done : c.done[k][1] = i IN c.done[k][2]
Forget(c, i) == [c EXCEPT !.done = SelectSeq(c.done, LAMBDA r : r[1] # i)]

Effect(c, o) ==
    CASE o.kind = "load" -> [c EXCEPT !.done = Append(c.done, <<o.id, c.val>>)]
      [] o.kind = "store" -> [val |-> o.val, done |-> Append(c.done, <<o.id, Nothing>>)]
      [] o.kind = "delete" -> [val |-> Nothing, done |-> Append(c.done, <<o.id, Nothing>>)]

RECURSIVE Closure(_, _)
Closure(W, P) ==
    LET N == UNION {{Effect(c, o) : o \in {q \in P : ~IsDone(c, q.id)}} : c \in W}
    IN  IF N \subseteq W THEN W ELSE Closure(W \cup N, P)

Invoke(r, o) == LET P == r.p \cup {o} IN [w |-> Closure(r.w, P), p |-> P]

\* typed access
Accepts(typ, tag) ==
    CASE typ = "any" -> TRUE
      [] typ = "int" -> tag = "i"
      [] typ = "str" -> tag = "s"
      [] typ = "bool" -> tag = "b"
      [] typ = "float" -> tag = "f"
      [] typ = "bytes" -> tag = "s"
      [] typ = "optint" -> tag \in {"i", "n"}
      [] typ = "optstr" -> tag \in {"s", "n"}
      [] typ = "listint" -> tag \in {"li", "le"}
      [] typ = "liststr" -> tag \in {"ls", "le"}
      [] typ = "dictint" -> tag \in {"di", "de"}
      [] typ = "dictbool" -> tag \in {"db", "de"}
      [] OTHER -> FALSE
Shown(typ, v) ==
    IF v = Nothing THEN "nothing"
    ELSE IF ~Accepts(typ, v[1]) THEN "TypeError"
    ELSE IF typ = "bytes" THEN v[3] ELSE v[2]

\* whether Python's bool counts as int is left open
Open(typ, tag) == <<typ, tag>> \in {<<"int", "b">>, <<"optint", "b">>, <<"listint", "lb">>, <<"dictint", "db">>}
Shows(typ, v) == {Shown(typ, v)} \cup (IF Open(typ, v[1]) THEN {v[2]} ELSE {})

\* the response x of operation o: "ok" (writes), "fail", or what a load shows
Respond(r, o, x) ==
    LET P == r.p \ {o}
        W == IF x = "fail" THEN {c \in r.w : ~IsDone(c, o.id)}
             ELSE {Forget(c, o.id) : c \in {d \in r.w : IsDone(d, o.id) /\ (IF o.kind = "load" THEN x \in Shows(o.typ, Outcome(d, o.id))
                                                                            ELSE x = "ok")}}
    IN  [w |-> W, p |-> P]
\* nothing in flight: the visible value is the stored one
Quiesce(r, stored) == [r EXCEPT !.w = {c \in r.w : c.val = stored}]
=============================================================================
