--------------------------- MODULE PlannerHelpers ---------------------------
(* What the planners' ready-made sampling, neighbour and propagation functions do. *)
(* Draws are multiples of 1/64.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
\* answers r[u+1] for the draws u = 0..63: "yes" with probability p/64 (u = p itself is open)
Bernoulli(r, p, yes) == Len(r) = 64 /\ \A u \in 0..63 : (u < p => r[u + 1] = yes) /\ (u > p => r[u + 1] = 1 - yes)
\* one of n, each as often as any other for evenly spread draws
Uniform(r, n) == Len(r) = 64 /\ (\A u \in 1..64 : r[u] \in 0..(n - 1))
                 /\ \A i \in 0..(n - 1) : LET k == Cardinality({u \in 1..64 : r[u] = i}) IN k * n <= 64 + n /\ k * n >= 64 - n
Nearest(vs, x, r) == r \in 0..(Len(vs) - 1) /\ \A k \in DOMAIN vs : Abs(vs[r + 1] - x) <= Abs(vs[k] - x)
\* steps along a line
Free(blk, a, b) == LET lo == IF a < b THEN a ELSE b hi == IF a < b THEN b ELSE a IN ~\E k \in DOMAIN blk : lo <= blk[k] /\ blk[k] < hi
Toward(a, b, step) == IF Abs(a - b) <= step THEN b ELSE IF b > a THEN a + step ELSE a - step
Extend(blk, a, b, step) == LET z == Toward(a, b, step) IN IF Free(blk, a, z) THEN <<<<z, -1>>>> ELSE <<>>
RECURSIVE Conn(_, _, _, _, _)
Conn(blk, a, b, step, rel) == IF a = b THEN <<>> ELSE LET z == Toward(a, b, step) IN IF Free(blk, a, z) THEN <<<<z, rel>>>> \o Conn(blk, z, b, step, rel + 1) ELSE <<>>
\* samples r of a goal-biased sampler after d draws: a fresh state (1000, 1001, ..) when
\* the draw exceeds the bias, else one of the goals
GoalBiased(bias, G, us, r, d) ==
  /\ Len(r) = Len(d)
  /\ \A k \in DOMAIN r :
       LET first == IF k = 1 THEN 0 ELSE d[k - 1]
           u == us[(first % Len(us)) + 1]
           freshBefore == Cardinality({j \in 1..(k - 1) : r[j] >= 1000})
           fresh == r[k] = 1000 + freshBefore /\ d[k] = first + 1
           goal == \E j \in DOMAIN G : r[k] = G[j]
       IN /\ (u > bias => fresh) /\ (u < bias => goal) /\ (fresh \/ goal)
=============================================================================
