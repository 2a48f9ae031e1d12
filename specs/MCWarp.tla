-------------------------------- MODULE MCWarp --------------------------------
(* Filling the cost table cell by cell in any order that has the neighbours ready gives the
   least cost over all alignments, for every table. *)
EXTENDS Warp, TLC
CONSTANTS N, M, Vals
VARIABLES T, cost
Cells == (1..N) \X (1..M)
Init == T \in [1..N -> [1..M -> Vals]] /\ cost = <<>>
Before(p) == {q \in Cells : q \in {<<p[1] - 1, p[2]>>, <<p[1], p[2] - 1>>, <<p[1] - 1, p[2] - 1>>}}
Fill == \E p \in Cells : /\ p \notin DOMAIN cost /\ Before(p) \subseteq DOMAIN cost
                         /\ cost' = [q \in DOMAIN cost \cup {p} |-> IF q # p THEN cost[q] ELSE T[p[1]][p[2]] + (IF Before(p) = {} THEN 0 ELSE SMin({cost[q2] : q2 \in Before(p)}))]
                         /\ UNCHANGED T
Spec == Init /\ [][Fill]_<<T, cost>>
CellsRight == \A p \in DOMAIN cost : cost[p] = Defined(T, p[1], p[2])
RowsRight == DOMAIN cost = Cells => Cost(T) = Defined(T, N, M)
NoShorter == DOMAIN cost = Cells => /\ cost[<<N, M>>] >= Hausdorff(T) /\ cost[<<N, M>>] >= SMax({T[1][1], T[N][M]})
=============================================================================
