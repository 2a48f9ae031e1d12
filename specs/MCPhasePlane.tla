---------------------------- MODULE MCPhasePlane ----------------------------
(* Forward and backward integration below a limit curve: accelerate as long as allowed, follow
   the limit where it falls slowly enough, and where it falls faster brake backwards from the
   point below it until the profile so far is met; at the end brake back from rest. *)
EXTENDS PhasePlane
CONSTANTS N, Top, A
VARIABLES lim, e, tip, back
vars == <<lim, e, tip, back>>
Init == lim \in [0..N -> 0..Top] /\ lim[0] = 0 /\ lim[N] = 0 /\ e = [i \in 0..N |-> 0] /\ tip = 0 /\ back = -1
Forward == /\ back = -1 /\ tip < N /\ UNCHANGED lim
           /\ tip' = tip + 1
           /\ LET want == e[tip] + A IN e' = [e EXCEPT ![tip + 1] = IF want <= lim[tip + 1] THEN want ELSE lim[tip + 1]]
           /\ back' = IF e[tip] - A > lim[tip + 1] THEN tip + 1 ELSE -1
Backward == /\ back > 0 /\ UNCHANGED <<lim, tip>>
            /\ IF e[back - 1] <= e[back] + A THEN back' = -1 /\ UNCHANGED e
               ELSE e' = [e EXCEPT ![back - 1] = e[back] + A] /\ back' = back - 1
Spec == Init /\ [][Forward \/ Backward]_vars /\ WF_vars(Forward \/ Backward)
Done == tip = N /\ back = -1
\* what is settled is allowed and cannot be faster; what is not is at least never too slow
Below == \A i \in 0..tip : e[i] <= lim[i] /\ e[i] >= 0
NeverTooSlow == \A i \in 0..tip : e[i] >= Best(lim, N, A)[i]
Feasible == back = -1 => \A i \in 1..tip : Abs(e[i] - e[i - 1]) <= A
Fastest == Done => e = Best(lim, N, A) /\ Allowed(e, lim, N, A)
\* some limit is used in full but for single intervals where acceleration turns to braking
Uses(i) == Abs(e[i] - e[i - 1]) = A \/ e[i] = lim[i] \/ e[i - 1] = lim[i - 1]
Saturated == Done => \A i \in 2..N : Uses(i) \/ Uses(i - 1)
Optimal == Done => \A i \in 1..(N - 1) : \A k \in 1..Top : LET f == [e EXCEPT ![i] = @ + k] IN ~Allowed(f, lim, N, A)
Finishes == <>Done
=============================================================================
