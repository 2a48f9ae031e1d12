------------------------------- MODULE Linkage -------------------------------
(* Agglomerative clustering of items 1..n: a partition that starts with every item alone;
   a step merges two parts at the least distance between any two parts, as long as this is
   within the limit. The distance of two parts is the least (single linkage) or the greatest
   (complete linkage) distance of their items. *)
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000000
Alone(n) == {{i} : i \in 1..n}
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Between(D, A, B) == {D[a][b] : a \in A, b \in B}
Link(D, single, A, B) == IF single THEN SMin(Between(D, A, B)) ELSE SMax(Between(D, A, B))
Couples(P) == {ab \in P \X P : ab[1] # ab[2] /\ SMin(ab[1]) < SMin(ab[2])}
Closest(D, single, P) ==
  LET C == Couples(P) IN
  IF C = {} THEN [d |-> INF, pairs |-> {}]
  ELSE LET f == [ab \in C |-> Link(D, single, ab[1], ab[2])] d == SMin({f[ab] : ab \in C}) IN
       [d |-> d, pairs |-> {ab \in C : f[ab] = d}]
Merge(P, ab) == (P \ {ab[1], ab[2]}) \cup {ab[1] \cup ab[2]}
Final(D, single, max, P) == LET k == Closest(D, single, P) IN k.d > max \/ k.d >= INF
Next(D, single, max, s) == \* states after one merge
  LET k == Closest(D, single, s.P) IN
  IF k.d > max \/ k.d >= INF THEN {} ELSE {[P |-> Merge(s.P, ab), d |-> k.d] : ab \in k.pairs}
\* all final states, whichever of equally close pairs is merged
RECURSIVE Ends(_, _, _, _)
Ends(D, single, max, F) ==
  IF F = {} THEN {}
  ELSE {s \in F : Final(D, single, max, s.P)} \cup Ends(D, single, max, UNION {Next(D, single, max, s) : s \in F})
AllEnds(D, single, max, n) == Ends(D, single, max, {[P |-> Alone(n), d |-> 0]})

\* what the result has to be, said without the procedure
IsPartition(P, n) == /\ UNION P = 1..n /\ {} \notin P
                     /\ \A A \in P, B \in P : A = B \/ A \cap B = {}
RECURSIVE Grow(_, _, _, _)
Grow(D, max, S, n) == LET T == S \cup {j \in 1..n : \E i \in S : i # j /\ D[i][j] <= max /\ D[i][j] < INF} IN IF T = S THEN S ELSE Grow(D, max, T, n)
Components(D, max, n) == {Grow(D, max, {i}, n) : i \in 1..n}
Diam(D, A) == IF Cardinality(A) = 1 THEN 0 ELSE SMax({D[p[1]][p[2]] : p \in {q \in A \X A : q[1] # q[2]}})
\* the longest step needed to hold a part together: least t such that its items are linked by steps <= t
Held(D, A, t) == \A i \in A : LET S == CHOOSE S \in {Grow(D, t, {i}, Len(D))} : TRUE IN A \subseteq S
Heights(D, A) == {0} \cup {D[p[1]][p[2]] : p \in {q \in A \X A : q[1] # q[2]}}
Height(D, single, A) ==
  IF Cardinality(A) = 1 THEN 0 ELSE IF ~single THEN Diam(D, A) ELSE SMin({t \in Heights(D, A) : Held(D, A, t)})
Good(D, single, max, n, P, d) ==
  /\ IsPartition(P, n)
  /\ IF single THEN P = Components(D, max, n)
     ELSE /\ \A A \in P : Cardinality(A) > 1 => Diam(D, A) <= max
          /\ \A ab \in Couples(P) : LET k == Link(D, FALSE, ab[1], ab[2]) IN k > max \/ k >= INF
  /\ d = SMax({Height(D, single, A) : A \in P})
Distinct(D, n) == Cardinality({D[p[1]][p[2]] : p \in {q \in (1..n) \X (1..n) : q[1] < q[2]}}) = (n * (n - 1)) \div 2
=============================================================================
