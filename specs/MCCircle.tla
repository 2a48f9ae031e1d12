------------------------------- MODULE MCCircle -------------------------------
(* A hand walks upwards, unit by unit, from A until it points at B; another walks downwards.
   What the definitions say is what the walks meet. The running average (each angle pulls the
   average along the short way) is the average along the arc. *)
EXTENDS Circle, FiniteSets, TLC
CONSTANTS Arc
VARIABLES A, B, up, down, seen, arc
vars == <<A, B, up, down, seen, arc>>
All == -(3 * N)..(3 * N)
Weighted == {<<o, w>> : o \in 0..Arc, w \in {0, 1, -2}}
\* offsets are in sixtieths of unit distance so that the running average stays whole
Init == /\ A \in All /\ B \in All /\ up = 0 /\ down = 0 /\ seen = {Wrap(A)}
        /\ arc \in IF A = 0 /\ B = 0 THEN [1..3 -> Weighted] ELSE {<<>>}
Walk == /\ ~Same(A + up, B) /\ up' = up + 1 /\ seen' = seen \cup {Wrap(A + up')}
        /\ down' = (IF Same(A - down, B) THEN down ELSE down + 1) /\ UNCHANGED <<A, B, arc>>
Spec == Init /\ [][Walk \/ (Same(A + up, B) /\ ~Same(A - down, B) /\ down' = down + 1 /\ UNCHANGED <<A, B, up, seen, arc>>)]_vars
There == Same(A + up, B) /\ Same(A - down, B)
Wrapped == Wrap(A) \in (-N)..(N - 1) /\ Same(A, Wrap(A)) /\ Wrap(Wrap(A)) = Wrap(A)
Walked == There => /\ up = Range(A, B) /\ Dist(A, B) = Min(up, down) /\ Abs(Signed(A, B)) = Dist(A, B)
                   /\ Wrap(A + Signed(A, B)) = Wrap(B) /\ Dist(A, B) = Dist(B, A)
                   /\ \A v \in (-N)..(N - 1) : InBounds(A, B, v) <=> v \in seen
                   /\ \A x \in Between(A, B, 8) : Same(x, B)
                   /\ Between(A, B, 0) = {A}
\* running average over a large circle of Big units per half turn, angles multiples of 60
Big == 60 * 2 * Arc
WrapBig(a) == ((a + Big) % (2 * Big)) - Big
RECURSIVE Run(_, _, _, _)
Run(s, i, avg, sum) ==
  IF i > Len(s) THEN avg
  ELSE IF s[i][2] = 0 THEN Run(s, i + 1, avg, sum)
  ELSE LET w == Abs(s[i][2]) IN Run(s, i + 1, WrapBig(avg + (w * WrapBig(s[i][1] - avg)) \div (sum + w)), sum + w)
Average == arc # <<>> /\ (\E i \in 1..3 : arc[i][2] # 0) =>
  \A turn \in {-1, 0, 1} :
    LET s == [i \in 1..3 |-> <<60 * arc[i][1] + Big + turn * 60, arc[i][2]>>]
        w == [i \in 1..3 |-> arc[i][2]]
        k == First(w) IN
    WrapBig(Run(s, 1, s[k][1], 0) - (s[k][1] + Total([i \in 1..3 |-> Abs(w[i]) * (s[i][1] - s[k][1])]) \div Weights(w))) = 0
=============================================================================
