---------------------------- MODULE RotationGen ----------------------------
(* Environments for the rotation loop: periods, ages of the keys at start,  *)
(* runs of failing uploads, removal of a backend, async framework.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
Periods == {100, 3600, 604800, 2592000}
\* ages relative to the period: <<multiples of the period, offset>>
Ages == {<<0, 0>>, <<0, 17>>, <<1, -61>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<3, 5>>}
Runs == {<<>>, <<1>>, <<2, 0, 1>>, <<5>>, <<9>>, <<0, 3>>}
\* removal: never, while idle, or during the k-th retry delay
Purges == {"no", "idle", "retry1", "retry3"}
E(p, ag, fr, pu, fw) == [period |-> p, ages |-> ag, fails |-> fr, purge |-> pu, fw |-> fw]
One == {E(p, <<a>>, <<f>>, pu, fw) : p \in Periods, a \in Ages, f \in Runs, pu \in Purges, fw \in {"asyncio", "twisted"}}
Two == {E(p, <<a, b>>, <<f, g>>, pu, fw) : p \in Periods, a \in Ages, b \in Ages, f \in Runs, g \in Runs, pu \in Purges, fw \in {"asyncio", "twisted"}}
Three == {E(p, <<a, b, c>>, <<f, g, <<>> >>, pu, fw) : p \in {3600, 604800}, a \in Ages, b \in Ages, c \in Ages, f \in Runs, g \in Runs, pu \in Purges, fw \in {"asyncio"}}
N == IF "ROT_N" \in DOMAIN IOEnv THEN atoi(IOEnv.ROT_N) ELSE 400
VARIABLE x
Init == /\ x = 0
        /\ \A e \in RandomSubset(N, One) \cup RandomSubset(N, Two) \cup RandomSubset(N, Three) : PrintT("GEN|" \o ToJson(e))
Next == UNCHANGED x
=============================================================================
