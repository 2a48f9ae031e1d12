------------------------------ MODULE MCVectors ------------------------------
(* The procedures the library follows, step by step in exact fractions, against the
   definitions: a running weighted average over a stream of items, interpolation one axis after
   the other, projecting in turn. *)
EXTENDS Vectors, FiniteSets, TLC
CONSTANTS Val, MaxItems
VARIABLES items, w, num, den, a, b, cell, q
vars == <<items, w, num, den, a, b, cell, q>>
Vec2 == {<<x, y>> : x \in -Val..Val, y \in -Val..Val}
Vec3 == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1}
Init == /\ items = <<>> /\ w = <<>> /\ num = 0 /\ den = 0
        /\ \/ a \in Vec2 /\ b \in Vec2 /\ cell = <<>> /\ q = <<>>
           \/ a \in Vec3 /\ b \in Vec3 /\ cell = <<>> /\ q = <<>>
           \/ a = <<>> /\ b = <<>> /\ cell \in [1..4 -> -1..1] /\ q \in (-1..3) \X (-1..2)
           \/ a = <<0>> /\ b = <<0>> /\ cell = <<>> /\ q = <<>>
\* average so far num / den; the next item pulls it by its share of the weight:
\* avg + (wt/(den'))(x - avg) with the weight so far as denominator
Take(x, wt) ==
  /\ a = <<0>> /\ Len(items) < MaxItems
  /\ items' = Append(items, <<x>>) /\ w' = Append(w, wt)
  /\ IF wt = 0 THEN UNCHANGED <<num, den>>
     ELSE /\ den' = den + Abs(wt)
          /\ num' = IF den = 0 THEN x * Abs(wt) ELSE (num * (den + Abs(wt)) + Abs(wt) * (x * den - num)) \div den
  /\ UNCHANGED <<a, b, cell, q>>
Spec == Init /\ [][\E x \in -Val..Val, wt \in -1..2 : Take(x, wt)]_vars
Running == den > 0 => CanAverage(items, w) /\ den = Sum(WOf(items, w)) /\ <<num>> = Average(items, w, 1)
Projecting == Len(a) > 1 =>
  /\ Dot(a, Rej(a, b)) = 0
  /\ Plus(Proj(a, b), Rej(a, b)) = Scale(b, Max1(Sq(a)))
  /\ Dot(a, b) * Dot(a, b) <= Sq(a) * Sq(b)
  /\ (Parallel(a, b) <=> Dot(a, b) * Dot(a, b) = Sq(a) * Sq(b))
  /\ Rej(a, Rej(a, b)) = Scale(Rej(a, b), Max1(Sq(a)))
  \* some axis leaves at least a quarter of its squared length when made orthogonal to a vector
  /\ \E i \in DOMAIN a : 4 * Sq(Rej(a, [j \in DOMAIN a |-> IF i = j THEN 1 ELSE 0])) > Max1(Sq(a)) * Max1(Sq(a))
  /\ SqDist(a, b) = SqDist(b, a) /\ (SqDist(a, b) = 0 <=> a = b)
\* along x at the low and the high y, then along y; a cell of size 2 x 1 at the origin
Line(s, d, low, high) == (s - d) * low + d * high
Axes == cell # <<>> => Cell(<<0, 0>>, <<2, 1>>, cell, q) = Line(1, q[2], Line(2, q[1], cell[1], cell[3]), Line(2, q[1], cell[2], cell[4]))
Corners == cell # <<>> => \A i \in 0..1, j \in 0..1 : Cell(<<0, 0>>, <<2, 1>>, cell, <<2 * i, j>>) = 2 * cell[2 * i + j + 1]
=============================================================================
