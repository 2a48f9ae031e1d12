--------------------------------- MODULE Grid ---------------------------------
(* Grid geometry. All lengths are integers (a small unit); a pose is a signed     *)
(* permutation P (for each axis <<which axis, sign>>) and a translation t, so that *)
(* world[k] = sign_k * grid[axis_k] + t[k].                                       *)
EXTENDS Integers, Sequences, FiniteSets
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ PowerOfTwo(n \div 2))
ToWorld(pose, p) == [k \in 1..3 |-> pose.P[k][2] * p[pose.P[k][1] + 1] + pose.t[k]]
ToGrid(pose, w) == [a \in 1..3 |-> LET k == CHOOSE k \in 1..3 : pose.P[k][1] + 1 = a IN pose.P[k][2] * (w[k] - pose.t[k])]
Inside(n, i) == \A k \in 1..3 : i[k] >= 0 /\ i[k] < n[k]
CellsOf(n) == {<<x, y, z>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1), z \in 0..(n[3] - 1)}
\* the cell of a point in the grid's frame
Cell(cs, p) == [k \in 1..3 |-> FloorDiv(p[k], cs[k])]
\* a point on a border whose cell size is no power of two may round to either side
Near(cs, p, i) == \A k \in 1..3 : \/ i[k] = FloorDiv(p[k], cs[k])
                                  \/ ~PowerOfTwo(cs[k]) /\ p[k] % cs[k] = 0 /\ i[k] = FloorDiv(p[k], cs[k]) - 1
Exact(cs, p) == \A k \in 1..3 : PowerOfTwo(cs[k]) \/ p[k] % cs[k] # 0
\* twice the centre of a cell, in the grid's frame and in the world
Centre2(cs, i) == [k \in 1..3 |-> cs[k] * (2 * i[k] + 1)]
WorldCentre2(pose, cs, i) == LET p == Centre2(cs, i) IN [k \in 1..3 |-> pose.P[k][2] * p[pose.P[k][1] + 1] + 2 * pose.t[k]]
Total(n) == n[1] * n[2] * n[3]
InBox(cs, i, p) == \A k \in 1..3 : i[k] * cs[k] <= p[k] /\ p[k] < (i[k] + 1) * cs[k]
=============================================================================
