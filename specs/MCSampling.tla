----------------------------- MODULE MCSampling -----------------------------
(* Drawing from a truncated standard normal distribution by proposing and accepting, and random
   rotations turned by further rotations. Logarithms are doubled and in lattice units squared. *)
EXTENDS Sampling
CONSTANTS Far
VARIABLES lo, hi, mode, out, turn
vars == <<lo, hi, mode, out, turn>>
Pts == -Far..Far
Init == /\ lo \in Pts \cup {-Inf} /\ hi \in Pts \cup {Inf} /\ lo < hi /\ mode = "none" /\ out = Inf /\ turn = Id3
\* the bounds as the sampler works on them: reflected when the range is a half-line to the left
Flip == hi < 0 /\ lo = -Inf
A == IF Flip THEN -hi ELSE lo
B == IF Flip THEN -lo ELSE hi
Choose == /\ mode = "none" /\ UNCHANGED <<lo, hi, out, turn>>
          /\ mode' \in IF lo <= 0 /\ hi >= 0 THEN {"naive"} ELSE IF A > 0 /\ B = Inf THEN {"tail"} ELSE IF A > 0 THEN {"tail", "flat"} ELSE {"flat"}
Support(m) == {z \in -(2 * Far)..(2 * Far) : CASE m = "naive" -> TRUE [] m = "tail" -> z >= A [] m = "flat" -> z >= A /\ z <= B}
Rate == A + 1          \* any positive rate gives the same distribution
LogPropose(m, z) == CASE m = "naive" -> -(z * z) [] m = "tail" -> -(2 * Rate * (z - A)) [] m = "flat" -> 0
Nearest == IF A > 0 THEN A ELSE B
LogAccept(m, z) == CASE m = "naive" -> 0 [] m = "tail" -> -Sq(Rate - z) [] m = "flat" -> Nearest * Nearest - z * z
Draw == /\ mode # "none" /\ UNCHANGED <<lo, hi, mode, turn>>
        /\ \E z \in Support(mode) : z >= A /\ z <= B /\ out' = IF Flip THEN -z ELSE z
Rotate == \E g \in Quarters : turn' = Mul3(turn, g) /\ UNCHANGED <<lo, hi, mode, out>>
Spec == Init /\ [][Choose \/ Draw \/ (lo = -Inf /\ hi = Inf /\ mode = "none" /\ Rotate)]_vars
Inside == out # Inf => out >= lo /\ out <= hi
\* acceptance probabilities are at most one, and what comes out is proportional to the density
Probability == mode # "none" => \A z \in Support(mode) : (z >= A /\ z <= B) => LogAccept(mode, z) <= 0
Shape == mode # "none" => \A y, z \in {x \in Support(mode) : x >= A /\ x <= B} :
  LogPropose(mode, z) + LogAccept(mode, z) + z * z = LogPropose(mode, y) + LogAccept(mode, y) + y * y
Covers == mode # "none" => \A z \in Pts : (z >= A /\ z <= B) => z \in Support(mode)
\* the table is a distribution function
Table == \A k \in Pts : Cum(k) + Cum(-k) = Full8 /\ Cum(k) < Cum(k + 1) /\ Abs(16 * (Cum(k + 1) - Cum(k)) - Dens(k)) <= 200000 + Dens(k) \div 8
\* turning does not change the moments: the turned group is the group
Invariant == {Mul3(turn, g) : g \in Group} = Group /\ {Mul3(g, turn) : g \in Group} = Group /\ Cardinality(Group) = 24
Moments == /\ \A n \in 1..9 : Expect1[n] = 0
           /\ \A n \in 1..81 : Expect2[n] = IF (n - 1) \div 9 = (n - 1) % 9 THEN 8 ELSE 0
           /\ Expect3 = <<4, 4, 4, -4, -4, -4, 0, 0, 0, 0>>
=============================================================================
