------------------------------ MODULE Rotation ------------------------------
(***************************************************************************)
(* Signed pre key rotation (C20) and its interplay with the removal of     *)
(* backends (C18): the background loop at the granularity of its awaits.   *)
(* Time is discrete; ages advance only while the loop is suspended.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P,        \* rotation period
          G,        \* grace added to the delay until the next check
          R0, RMax, \* first and longest retry delay
          NB,       \* number of backends
          MaxFails, \* budget of failing uploads
          Cap       \* ages are explored up to this value

Min2(a, b) == IF a < b THEN a ELSE b
Bs == 1..NB

VARIABLES age, stall, loaded, pc, idx, next, wait, delay, fails, early, after
vars == <<age, stall, loaded, pc, idx, next, wait, delay, fails, early, after>>

Init == /\ age \in [Bs -> {0, 1, P - 1, P, P + 1, P + G + 3}]
        /\ stall = [b \in Bs |-> IF age[b] > P + G THEN age[b] ELSE 0]  \* keys that are overdue at startup
        /\ loaded = Bs
        /\ pc = "check" /\ idx = 1 /\ next = P /\ wait = 0 /\ delay = R0 /\ fails = 0
        /\ early = FALSE /\ after = FALSE

Skip == idx' = idx + 1
Check ==
    /\ pc = "check" /\ idx <= NB
    /\ IF idx \notin loaded THEN Skip /\ UNCHANGED <<age, stall, pc, next, delay, early>>
       ELSE IF P - age[idx] < 0
       THEN /\ age' = [age EXCEPT ![idx] = 0]
            /\ stall' = [stall EXCEPT ![idx] = 0]
            /\ early' = (early \/ age[idx] < P)
            /\ pc' = "upload" /\ delay' = R0
            /\ UNCHANGED <<idx, next>>
       ELSE /\ next' = Min2(next, P - age[idx])
            /\ Skip
            /\ UNCHANGED <<age, stall, pc, delay, early>>
    /\ UNCHANGED <<loaded, wait, fails, after>>
Sleep ==
    /\ pc = "check" /\ idx > NB
    /\ pc' = "sleep" /\ wait' = next + G
    /\ UNCHANGED <<age, stall, loaded, idx, next, delay, fails, early, after>>
Upload ==
    /\ pc = "upload"
    /\ after' = (after \/ idx \notin loaded)
    /\ \/ pc' = "check" /\ Skip /\ UNCHANGED <<wait, fails>>
       \/ fails < MaxFails /\ fails' = fails + 1 /\ pc' = "retry" /\ wait' = delay /\ UNCHANGED idx
    /\ UNCHANGED <<age, stall, loaded, next, delay, early>>
Tick ==
    /\ pc \in {"sleep", "retry"} /\ wait > 0
    /\ \A b \in loaded : age[b] < Cap
    /\ wait' = wait - 1
    /\ age' = [b \in Bs |-> IF b \in loaded THEN age[b] + 1 ELSE age[b]]
    /\ stall' = [b \in Bs |-> IF pc = "retry" /\ b \in loaded THEN stall[b] + 1 ELSE stall[b]]
    /\ UNCHANGED <<loaded, pc, idx, next, delay, fails, early, after>>
Wake ==
    /\ pc \in {"sleep", "retry"} /\ wait = 0
    /\ IF pc = "sleep" THEN pc' = "check" /\ idx' = 1 /\ next' = P /\ UNCHANGED delay
       ELSE /\ delay' = Min2(2 * delay, RMax)
            /\ IF idx \in loaded THEN pc' = "upload" /\ UNCHANGED idx ELSE pc' = "check" /\ Skip
            /\ UNCHANGED next
    /\ UNCHANGED <<age, stall, loaded, wait, fails, early, after>>
Purge(b) ==
    /\ pc \in {"sleep", "retry"} /\ b \in loaded
    /\ loaded' = loaded \ {b}
    /\ UNCHANGED <<age, stall, pc, idx, next, wait, delay, fails, early, after>>

Loop == Check \/ Sleep \/ Upload \/ Tick \/ Wake
Next == Loop \/ \E b \in Bs : Purge(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop)

NotEarly == ~early
NotLate == pc \in {"sleep", "retry"} => \A b \in loaded : age[b] <= P + G + stall[b]
NothingAfterPurge == ~after
Alternates == pc \in {"check", "upload", "retry", "sleep"} /\ delay <= RMax
\* publication is retried until it succeeds
Published == (pc = "retry") ~> (pc # "retry")
=============================================================================
