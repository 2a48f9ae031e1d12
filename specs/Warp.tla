--------------------------------- MODULE Warp ---------------------------------
(* Distances of sequences and sets, from a table T[i][j] of pairwise distances. *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a <= b THEN a ELSE b
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
\* an alignment: a walk from <<1,1>> to <<n,m>> that steps by <<1,0>>, <<0,1>> or <<1,1>>
RECURSIVE Aligns(_, _)
Aligns(n, m) ==
  IF n = 1 /\ m = 1 THEN {<< <<1, 1>> >>}
  ELSE {Append(w, <<n, m>>) : w \in UNION {Aligns(q[1], q[2]) : q \in {x \in {<<n - 1, m>>, <<n, m - 1>>, <<n - 1, m - 1>>} : x[1] >= 1 /\ x[2] >= 1}}}
RECURSIVE Along(_, _, _)
Along(T, w, k) == IF k = 0 THEN 0 ELSE T[w[k][1]][w[k][2]] + Along(T, w, k - 1)
Defined(T, n, m) == SMin({Along(T, w, Len(w)) : w \in Aligns(n, m)})
\* the same by rows, for larger tables
RECURSIVE RowFrom(_, _, _, _)
RowFrom(T, i, prev, acc) == \* acc: costs of row i so far; prev: row i - 1 (or <<>>)
  LET j == Len(acc) + 1 IN
  IF j > Len(T[i]) THEN acc
  ELSE RowFrom(T, i, prev,
        Append(acc, T[i][j] + (IF prev = <<>> THEN (IF j = 1 THEN 0 ELSE acc[j - 1])
                               ELSE IF j = 1 THEN prev[1] ELSE Min2(Min2(prev[j], prev[j - 1]), acc[j - 1]))))
RECURSIVE Rows(_, _, _)
Rows(T, i, prev) == IF i > Len(T) THEN prev ELSE LET r == RowFrom(T, i, prev, <<>>) IN Rows(T, i + 1, r)
Cost(T) == LET r == Rows(T, 1, <<>>) IN r[Len(r)]
\* greatest of the distances from an item of the first set to the nearest of the second
Hausdorff(T) == SMax({SMin({T[i][j] : j \in DOMAIN T[i]}) : i \in DOMAIN T})
=============================================================================
