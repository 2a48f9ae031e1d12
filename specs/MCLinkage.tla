------------------------------ MODULE MCLinkage ------------------------------
(* The merging procedure, for every symmetric distance table of N items with values Vals and
   every limit: what it ends with is what the declarative reading demands; it ends. *)
EXTENDS Linkage, TLC
CONSTANTS N, Vals
VARIABLES D, max, single, P, d
UT == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Tab(f) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]]
Init == /\ D \in {Tab(f) : f \in [UT -> Vals]} /\ max \in Vals \cup {0} /\ single \in BOOLEAN
        /\ P = Alone(N) /\ d = 0
MergeTwo == \E s \in Next(D, single, max, [P |-> P, d |-> d]) : P' = s.P /\ d' = s.d /\ UNCHANGED <<D, max, single>>
Spec == Init /\ [][MergeTwo]_<<D, max, single, P, d>>
AlwaysPartition == IsPartition(P, N)
EndsRight == Final(D, single, max, P) => Good(D, single, max, N, P, d)
Rising == [][d' >= d /\ Cardinality(P') < Cardinality(P)]_<<D, max, single, P, d>>
UniqueWithoutTies == Final(D, single, max, P) /\ Distinct(D, N) => AllEnds(D, single, max, N) = {[P |-> P, d |-> d]}
=============================================================================
