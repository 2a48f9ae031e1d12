----------------------------- MODULE RobotModel -----------------------------
(* A robot model keeps a position; what it says about distances comes from its own signed
   per-joint differences (times a weight, one way longer than the other) and its own distance. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
\* joint i counts w[i] upwards and one more than that downwards
Signed(w, a, b) == [i \in DOMAIN a |-> IF b[i] >= a[i] THEN w[i] * (b[i] - a[i]) ELSE (w[i] + 1) * (b[i] - a[i])]
Each(w, a, b) == [i \in DOMAIN a |-> Abs(Signed(w, a, b)[i])]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Distance(w, a, b) == SumTo(Each(w, a, b), Len(a))
=============================================================================
