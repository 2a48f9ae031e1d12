-------------------------------- MODULE KMeans --------------------------------
(* K-means over weighted items in the plane, with the distance |dx| + |dy| and the weighted
   median as average (the exact minimiser for that distance; of no items: the origin).
   Labels are 0..k-1. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
D(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
RECURSIVE SumW(_, _)
SumW(w, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN w[i] + SumW(w, S \ {i})
Med(x, w, S) == \* x, w: functions on the indices S
  LET W == SumW(w, S) IN
  CHOOSE v \in {x[i] : i \in S} : /\ 2 * SumW(w, {i \in S : x[i] <= v}) >= W
                                   /\ 2 * SumW(w, {i \in S : x[i] < v}) < W
Center(items, w, S) ==
  IF S = {} THEN <<0, 0>>
  ELSE <<Med([i \in S |-> items[i][1]], w, S), Med([i \in S |-> items[i][2]], w, S)>>
Of(labels, k) == {i \in DOMAIN labels : labels[i] = k}
Centers(items, w, labels, k) == [j \in 1..k |-> Center(items, w, Of(labels, j - 1))]
Nearest(p, centers, lab) == \A j \in DOMAIN centers : D(p, centers[lab + 1]) <= D(p, centers[j])
Label(p, centers) == (CHOOSE j \in DOMAIN centers : \A m \in DOMAIN centers : D(p, centers[j]) < D(p, centers[m]) \/ (D(p, centers[j]) = D(p, centers[m]) /\ j <= m)) - 1
Labels(items, centers) == [i \in DOMAIN items |-> Label(items[i], centers)]
RECURSIVE CostTo(_, _, _, _, _)
CostTo(items, w, labels, centers, i) == IF i = 0 THEN 0 ELSE w[i] * D(items[i], centers[labels[i] + 1]) + CostTo(items, w, labels, centers, i - 1)
Cost(items, w, labels, centers) == CostTo(items, w, labels, centers, Len(items))
InRange(labels, n, k) == Len(labels) = n /\ \A i \in DOMAIN labels : labels[i] \in 0..(k - 1)
Fixed(items, w, labels, k) ==
  /\ InRange(labels, Len(items), k)
  /\ LET C == Centers(items, w, labels, k) IN \A i \in DOMAIN items : Nearest(items[i], C, labels[i])
=============================================================================
