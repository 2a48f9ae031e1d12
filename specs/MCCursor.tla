------------------------------- MODULE MCCursor -------------------------------
(* Up to three trajectories made by copying; queries in any order; any of them dropped. The
   answer is the one without a cursor, and no cursor points into another one's list. *)
EXTENDS Cursor, FiniteSets, TLC
CONSTANTS Len_, MaxT
VARIABLES T, cur, last
Obj == 1..3
Inc == {s \in [1..Len_ -> 0..MaxT] : s[1] = 0 /\ \A i \in 1..(Len_ - 1) : s[i] < s[i + 1]}
Gone == [own |-> -1, at |-> 0, time |-> 0]
Init == T \in Inc /\ cur = [i \in Obj |-> IF i = 1 THEN None ELSE Gone] /\ last = [i |-> 1, t |-> MaxT, k |-> Len_]
Live == {i \in Obj : cur[i] # Gone}
Query == \E i \in Live, t \in 0..(MaxT + 1) : LET a == Ask(T, cur[i], i, t) IN
           cur' = [cur EXCEPT ![i] = a.cur] /\ last' = [i |-> i, t |-> t, k |-> a.k] /\ UNCHANGED T
Copy == \E i \in Live, j \in Obj \ Live : cur' = [cur EXCEPT ![j] = None] /\ UNCHANGED <<T, last>>
Drop == \E i \in Live : Cardinality(Live) > 1 /\ cur' = [cur EXCEPT ![i] = Gone] /\ UNCHANGED <<T, last>>
Spec == Init /\ [][Query \/ Copy \/ Drop]_<<T, cur, last>>
SameAnswer == last.k = Step(T, last.t)
OwnList == \A i \in Live : cur[i].own \in {0, i}
CursorTrue == \A i \in Live : cur[i].own = i => cur[i].at = Step(T, cur[i].time)
=============================================================================
