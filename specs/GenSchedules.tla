---------------------------- MODULE GenSchedules ----------------------------
(* Completion orders of a dynamic loop of N items on T threads: at each step *)
(* the K-th oldest running item ends, normally (1) or by an exception (2).   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, T, MaxFail
VARIABLES left, hist, fails
Running == IF left < T THEN left ELSE T
Init == left = N /\ hist = <<>> /\ fails = 0
End(k, f) == /\ left > 0 /\ k < Running
             /\ left' = left - 1
             /\ fails' = fails + (IF f = 2 THEN 1 ELSE 0) /\ fails' <= MaxFail
             /\ hist' = hist \o <<k, f>>
Next == (\E k \in 0..(T - 1), f \in {1, 2} : End(k, f)) \/ (left = 0 /\ UNCHANGED <<left, hist, fails>>)
Spec == Init /\ [][Next]_<<left, hist, fails>>
Emit == left = 0 => PrintT(ToJson([n |-> N, t |-> T, h |-> hist]))
=============================================================================
