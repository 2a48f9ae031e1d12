------------------------------- MODULE Vectors -------------------------------
(* Vectors of whole numbers; what is a fraction is stated multiplied by its denominator. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max1(x) == IF x < 1 THEN 1 ELSE x
SignSq(x) == x * Abs(x)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Times(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
Scale(a, k) == [i \in DOMAIN a |-> a[i] * k]
Dot(a, b) == Sum(Times(a, b))
Sq(a) == Dot(a, a)
SqDist(a, b) == Sq(Minus(a, b))
WDot(a, b, w) == Sum([i \in DOMAIN a |-> a[i] * b[i] * w[i]])
Head_(a, n) == SubSeq(a, 1, n)
\* k eighths of the way, times 8
Eighths(k) == IF k < 0 THEN 0 ELSE IF k > 8 THEN 8 ELSE k
Interp(a, b, k) == Plus(Scale(a, 8 - Eighths(k)), Scale(b, Eighths(k)))
\* interpolation inside (and beyond) a cell: lo + size, values by corner with the first axis
\* slowest; times the product of the sizes
RECURSIVE Cell(_, _, _, _)
Cell(lo, size, val, q) ==
  IF lo = <<>> THEN val[1]
  ELSE LET h == Len(val) \div 2
           d == q[1] - lo[1] IN
       (size[1] - d) * Cell(Tail(lo), Tail(size), SubSeq(val, 1, h), Tail(q))
       + d * Cell(Tail(lo), Tail(size), SubSeq(val, h + 1, 2 * h), Tail(q))
\* projection of v on b, and what is left, times |b|^2 (or 1)
Proj(b, v) == Scale(b, Dot(b, v))
Rej(b, v) == Minus(Scale(v, Max1(Sq(b))), Proj(b, v))
Parallel(a, b) == \A i, j \in DOMAIN a : a[i] * b[j] = a[j] * b[i]
Zero(a) == \A i \in DOMAIN a : a[i] = 0
\* weighted average, times the total weight
WOf(items, w) == IF w = <<>> THEN [i \in DOMAIN items |-> 1] ELSE [i \in DOMAIN w |-> Abs(w[i])]
CanAverage(items, w) == items # <<>> /\ (w # <<>> => Len(w) = Len(items) /\ ~Zero(w))
Average(items, w, dim) == [k \in 1..dim |-> Sum([i \in DOMAIN items |-> items[i][k] * WOf(items, w)[i]])]
\* squared distances of points to the plane through their centre with normal m, times |m|^2 n^2
Spread(pts, m) == LET n == Len(pts)
                      centre == [k \in DOMAIN m |-> Sum([i \in DOMAIN pts |-> pts[i][k]])] IN
                  Sum([i \in DOMAIN pts |-> Dot(m, Minus(Scale(pts[i], n), centre)) * Dot(m, Minus(Scale(pts[i], n), centre))])
Det3(a, b, v) == a[1] * (b[2] * v[3] - b[3] * v[2]) - a[2] * (b[1] * v[3] - b[3] * v[1]) + a[3] * (b[1] * v[2] - b[2] * v[1])
=============================================================================
