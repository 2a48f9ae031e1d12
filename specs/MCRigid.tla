------------------------------- MODULE MCRigid -------------------------------
(* A frame is turned by quarter turns about its own axes and moved along them; its pose is
   kept as a matrix and as a quaternion. All 24 orientations are met. The laws that tie the
   definitions together hold at every pose, for a second pose and for twists. *)
EXTENDS Rigid, FiniteSets, TLC
CONSTANTS Far
VARIABLES M, q, p, w
vars == <<M, q, p, w>>
Half(a) == IF \A i \in 1..4 : a[i] % 2 = 0 THEN <<a[1] \div 2, a[2] \div 2, a[3] \div 2, a[4] \div 2>> ELSE a
Axis == {<<1, 1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, 0, 1>>}
Unit(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Div(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][j] \div n]]
Init == M = Id3 /\ q = <<1, 0, 0, 0>> /\ p = <<0, 0, 0>> /\ w \in {<<1, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0>>, <<1, -1, 2, 0, 1, -1>>}
TurnBy(a) == M' = Mul3(M, Div(Rot(a), 2)) /\ q' = Half(QMul(q, a)) /\ UNCHANGED <<p, w>>
Move(i, d) == p' = Plus(p, ScaleV(App3(M, Unit(i)), d)) /\ UNCHANGED <<M, q, w>>
Spec == Init /\ [][(\E a \in Axis : TurnBy(a)) \/ (\E i \in 1..3, d \in {-1, 1} : Move(i, d))]_vars
Near == \A i \in 1..3 : Abs(p[i]) <= Far
SameRotation == Rot(q) = [i \in 1..3 |-> ScaleV(M[i], N2(q))]
Orthogonal == Mul3(M, Trans3(M)) = Id3 /\ Rot(ScaleV(q, -1)) = Rot(q)
\* the cosine between two rotations is what the trace says
Trace == \A b \in Axis : LET d == Mul3(Trans3(Rot(q)), Rot(b)) IN d[1][1] + d[2][2] + d[3][3] = 2 * Cos(q, b) + N2(q) * N2(b)
SkewIsCross == App3(Skew(p), <<1, -2, 3>>) = Cross(p, <<1, -2, 3>>) /\ Unskew2(Skew(p)) = ScaleV(p, 2)
\* the adjoint carries a twist the way conjugation carries its 4x4 form
Conjugate(a) == LET lin == <<a[1], a[2], a[3]>>
                    ang == App3(M, <<a[4], a[5], a[6]>>)
                    v == Minus(App3(M, lin), App3(Skew(ang), p)) IN <<v[1], v[2], v[3], ang[1], ang[2], ang[3]>>
Carries == App6(Adjoint(M, p), w) = Conjugate(w)
\* and does so step by step along a composition
Composes == \A a \in Axis : LET r == Div(Rot(a), 2)
                                t == <<1, 0, -1>> IN
  App6(Adjoint(Mul3(M, r), Plus(p, App3(M, t))), w) = App6(Adjoint(M, p), App6(Adjoint(r, t), w))
Quarter == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
Minus_(a) == <<a[1], -a[2], a[3]>>
EveryOrientation == \E r \in Quarter, y \in Quarter, pt \in Quarter : Rpy(r, pt, y) = M /\ Urdf(Minus_(r), Minus_(pt), Minus_(y)) = Trans3(M)
=============================================================================
