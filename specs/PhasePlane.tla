----------------------------- MODULE PhasePlane -----------------------------
(* Speed along a path as fast as limits allow. The design: positions 0..N along the path, a
   limit on the squared speed at each (zero at both ends and where the path must be passed at
   rest), and a bound A on its change from one position to the next. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the fastest profile: at every position the least that some limit allows there
Best(lim, n, a) == [i \in 0..n |-> MinOf({lim[j] + a * Abs(i - j) : j \in 0..n})]
Allowed(e, lim, n, a) == (\A i \in 0..n : e[i] >= 0 /\ e[i] <= lim[i]) /\ (\A i \in 1..n : Abs(e[i] - e[i - 1]) <= a)
\* ---- paths of straight segments between whole-number waypoints
RECURSIVE Dedup(_)
Dedup(w) == IF Len(w) <= 1 THEN w ELSE IF w[1] = w[2] THEN Dedup(Tail(w)) ELSE <<w[1]>> \o Dedup(Tail(w))
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + Dot(a, b, n - 1)
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
\* point in thousandths; place on the segment from a to b in ten thousandths, and squared distance from it
Along(p, a, b) == LET u == Sub(b, a)
                      w == [i \in DOMAIN a |-> p[i] - 1000 * a[i]]
                      t == (Dot(u, w, Len(u)) * 10) \div Dot(u, u, Len(u)) IN IF t < 0 THEN 0 ELSE IF t > 10000 THEN 10000 ELSE t
Off2(p, a, b) == LET u == Sub(b, a)
                     t == Along(p, a, b)
                     d == [i \in DOMAIN a |-> p[i] - 1000 * a[i] - (u[i] * t + 5) \div 10] IN Dot(d, d, Len(d))
From2(p, a) == LET d == [i \in DOMAIN a |-> p[i] - 1000 * a[i]] IN Dot(d, d, Len(d))
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
Sqrt(x) == Root(x, 0, 46340)
\* shortest time, in thousandths, from rest to rest along one segment; limits in quarters
SegTime(a, b, vm, am) ==
  LET u == Sub(b, a)
      J == {i \in DOMAIN u : u[i] # 0}
      i0 == CHOOSE i \in J : \A j \in J : vm[i] * Abs(u[j]) <= vm[j] * Abs(u[i])   \* slowest joint
      j0 == CHOOSE i \in J : \A j \in J : am[i] * Abs(u[j]) <= am[j] * Abs(u[i])
      V == <<vm[i0], 4 * Abs(u[i0])>>          \* fractions
      A == <<am[j0], 4 * Abs(u[j0])>> IN
  IF V[1] * V[1] * A[2] <= A[1] * V[2] * V[2] THEN (1000 * V[2]) \div V[1] + (1000 * V[1] * A[2]) \div (V[2] * A[1])
  ELSE Sqrt((4000000 * A[2]) \div A[1])
\* waypoints where the direction changes
Straight(a, b, d) == LET u == Sub(b, a)
                         v == Sub(d, b) IN Dot(u, v, Len(u)) > 0 /\ Dot(u, v, Len(u)) * Dot(u, v, Len(u)) = Dot(u, u, Len(u)) * Dot(v, v, Len(v))
RECURSIVE Corners(_)
Corners(w) == IF Len(w) <= 2 THEN w ELSE IF Straight(w[1], w[2], w[3]) THEN Corners(<<w[1]>> \o SubSeq(w, 3, Len(w))) ELSE <<w[1]>> \o Corners(Tail(w))
RECURSIVE StopTime(_, _, _)
StopTime(w, vm, am) == IF Len(w) <= 1 THEN 0 ELSE SegTime(w[1], w[2], vm, am) + StopTime(Tail(w), vm, am)
=============================================================================
