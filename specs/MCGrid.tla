-------------------------------- MODULE MCGrid --------------------------------
(* The geometry laws, for all small grids, poses and points.                     *)
EXTENDS Grid, TLC
CONSTANTS MaxN, Sizes, R
VARIABLE g
Perms == {<<<<a[1], s[1]>>, <<a[2], s[2]>>, <<a[3], s[3]>>>> : a \in {q \in (0..2) \X (0..2) \X (0..2) : q[1] # q[2] /\ q[2] # q[3] /\ q[1] # q[3]}, s \in ({1, -1} \X {1, -1} \X {1, -1})}
Init == g \in [n : (1..MaxN) \X (1..MaxN) \X {1, 2}, cs : Sizes \X Sizes \X {2}, pose : [P : Perms, t : {<<3, -5, 7>>}]]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
Pts == {<<x, y, z>> : x \in -R..R, y \in -R..R, z \in {-1, 0, 1, 2, 3}}
PoseInverts == \A p \in {<<1, 2, 3>>, <<-4, 0, 5>>} : ToGrid(g.pose, ToWorld(g.pose, p)) = p /\ ToWorld(g.pose, ToGrid(g.pose, p)) = p
CellIsBox == \A p \in Pts : InBox(g.cs, Cell(g.cs, p), p)
CentreInCell == \A i \in CellsOf(g.n) : Cell([k \in 1..3 |-> 2 * g.cs[k]], Centre2(g.cs, i)) = i
SomeCell == \A p \in Pts : Inside(g.n, Cell(g.cs, p)) <=> \E i \in CellsOf(g.n) : InBox(g.cs, i, p)
=============================================================================
