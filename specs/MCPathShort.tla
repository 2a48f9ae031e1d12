----------------------------- MODULE MCPathShort -----------------------------
(* Shortening as it goes on: any window, any relation of valid connections, small paths
   on a line. *)
EXTENDS PathShort, TLC
CONSTANTS N, Pos, MaxIter, MaxBt
VARIABLES p0, p, V, it, fl, bt
vars == <<p0, p, V, it, fl, bt>>
P == {<<x, 0>> : x \in Pos}
Init == p0 \in [1..N -> P] /\ p = p0 /\ V \in SUBSET {e \in P \X P : e[1] # e[2]} /\ it = 0 /\ fl = 0 /\ bt \in 0..MaxBt
Try == /\ it < MaxIter /\ Len(p) > 2 /\ it' = it + 1
       /\ \E s \in 1..Len(p), e \in 1..Len(p) : s + 1 < e /\ LET q == Attempt(V, p, s, e, bt) IN
            /\ p' = IF q = <<>> THEN p ELSE Replace(p, s, e, q)
            /\ fl' = IF q = <<>> THEN fl + 1 ELSE fl
       /\ UNCHANGED <<p0, V, bt>>
Spec == Init /\ [][Try]_vars
StaysGood == Shortened(p0, V, p, 0)
NoMoreStates == Len(p) <= Len(p0)
=============================================================================
