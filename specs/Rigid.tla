-------------------------------- MODULE Rigid --------------------------------
(* Rotations as quaternions <<w, x, y, z>> of whole numbers; Rot(q) is the matrix times N2(q). *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
N2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Dot4(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4]
QMul(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4], a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2], a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
Rot(q) == LET w == q[1]
              x == q[2]
              y == q[3]
              z == q[4] IN
  << << w*w + x*x - y*y - z*z, 2 * (x*y - w*z), 2 * (x*z + w*y) >>,
     << 2 * (x*y + w*z), w*w - x*x + y*y - z*z, 2 * (y*z - w*x) >>,
     << 2 * (x*z - w*y), 2 * (y*z + w*x), w*w - x*x - y*y + z*z >> >>
Mul3(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
App3(a, v) == [i \in 1..3 |-> a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3]]
ScaleV(v, k) == [i \in DOMAIN v |-> v[i] * k]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Trans3(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Skew(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
\* twice the vector of the antisymmetric part
Unskew2(k) == << k[3][2] - k[2][3], k[1][3] - k[3][1], k[2][1] - k[1][2] >>
\* a twist is <<linear, angular>>; its 4x4 form
Hat(a) == << <<0, -a[6], a[5], a[1]>>, <<a[6], 0, -a[4], a[2]>>, <<-a[5], a[4], 0, a[3]>>, <<0, 0, 0, 0>> >>
\* adjoint of rotation matrix r (times n) and translation p, times n
Adjoint(r, p) == LET tr == Mul3(Skew(p), r) IN
  [i \in 1..6 |-> [j \in 1..6 |-> IF i <= 3 THEN (IF j <= 3 THEN r[i][j] ELSE tr[i][j - 3]) ELSE IF j <= 3 THEN 0 ELSE r[i - 3][j - 3]]]
App6(a, v) == [i \in 1..6 |-> a[i][1]*v[1] + a[i][2]*v[2] + a[i][3]*v[3] + a[i][4]*v[4] + a[i][5]*v[5] + a[i][6]*v[6]]
\* rows of the 3x4 matrix of the pose, times n, from a matrix already times n
Top(r, p, n) == [i \in 1..3 |-> << r[i][1], r[i][2], r[i][3], p[i] * n >>]
\* cosine of the angle between two rotations, times the norms
Cos(a, b) == 2 * Dot4(a, b) * Dot4(a, b) - N2(a) * N2(b)
\* turns about the axes by an angle <<cos, sin, hypotenuse>>, times the hypotenuse
TurnX(a) == << <<a[3], 0, 0>>, <<0, a[1], -a[2]>>, <<0, a[2], a[1]>> >>
TurnY(a) == << <<a[1], 0, a[2]>>, <<0, a[3], 0>>, <<-a[2], 0, a[1]>> >>
TurnZ(a) == << <<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, a[3]>> >>
Rpy(r, p, y) == Mul3(TurnX(r), Mul3(TurnY(p), TurnZ(y)))
Urdf(r, p, y) == Mul3(TurnZ(y), Mul3(TurnY(p), TurnX(r)))
=============================================================================
