-------------------------------- MODULE Cursor --------------------------------
(* Which step of a list of timed steps answers a query for a time, with and without a cursor
   that remembers the last answer. Times: an increasing sequence T with T[1] = 0. *)
EXTENDS Integers, Sequences
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Step(T, t) == IF t >= T[Len(T)] THEN Len(T) ELSE SMin({k \in DOMAIN T : T[k] > t})
None == [own |-> 0, at |-> 0, time |-> 1000000]
RECURSIVE Advance(_, _, _)
Advance(T, k, t) == IF t >= T[k] THEN Advance(T, k + 1, t) ELSE k
\* the answer and the cursor afterwards
Ask(T, cur, me, t) ==
  IF t >= T[Len(T)] THEN [k |-> Len(T), cur |-> cur]
  ELSE LET from == IF t < cur.time THEN [own |-> me, at |-> 1] ELSE [own |-> cur.own, at |-> cur.at]
           k == Advance(T, from.at, t) IN
       [k |-> k, cur |-> [own |-> from.own, at |-> k, time |-> t]]
=============================================================================
