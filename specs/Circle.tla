-------------------------------- MODULE Circle --------------------------------
(* Angles as whole numbers of units; N units are half a turn. *)
EXTENDS Integers, Sequences
CONSTANT N
Turn == 2 * N
Same(a, b) == (a - b) % Turn = 0
Wrap(a) == ((a + N) % Turn) - N
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Signed(a, b) == Wrap(b - a)
Dist(a, b) == Min((a - b) % Turn, (b - a) % Turn)
Range(a, b) == (b - a) % Turn
InRange(a, r, v) == Range(a, v) <= r
InBounds(a, b, v) == InRange(a, Range(a, b), v)
\* num eighths of the way along the short way, kept between the ends; both ways when opposite
Eighths(num) == IF num < 0 THEN 0 ELSE IF num > 8 THEN 8 ELSE num
Between(a, b, num) == {a + (d * Eighths(num)) \div 8 : d \in IF Dist(a, b) = N THEN {N, -N} ELSE {Signed(a, b)}}
\* average of angles on an arc shorter than half a turn: from the first one of non-zero weight
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(f) == SumTo(f, Len(f))
First(w) == CHOOSE i \in DOMAIN w : w[i] # 0 /\ \A j \in 1..(i - 1) : w[j] = 0
\* the sum of weighted offsets from angle A, to be divided by the sum of weights
Offsets(A, as, w) == Total([i \in DOMAIN as |-> Abs(w[i]) * (IF w[i] = 0 THEN 0 ELSE Signed(A, as[i]))])
Weights(w) == Total([i \in DOMAIN w |-> Abs(w[i])])
OnArc(as, w) == \E i \in DOMAIN as : w[i] # 0 /\ \A j \in DOMAIN as : w[j] # 0 => Range(as[i], as[j]) < N
=============================================================================
