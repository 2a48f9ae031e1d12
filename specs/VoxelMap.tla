------------------------------- MODULE VoxelMap -------------------------------
(* A voxel grid as a map from cells to values with a policy on mutable access.   *)
EXTENDS Grid
Fill(n, v) == [i \in CellsOf(n) |-> v]
NoGrid == [init |-> FALSE]
New(n, cs, pose, def, oob, deny, raw) ==
  [init |-> TRUE, n |-> n, cs |-> cs, pose |-> pose, def |-> def, oob |-> oob, deny |-> deny, raw |-> raw, m |-> Fill(n, def)]
Has(g, i) == g.init /\ Inside(g.n, i)
\* answers are <<status, value>>; value 0 when there is none
Read(g, i) == IF Has(g, i) THEN <<"ok", g.m[i]>> ELSE <<"oob", 0>>
MayWrite(g, i) == Has(g, i) /\ i \notin g.deny
WriteStatus(g, i) == IF ~Has(g, i) THEN "oob" ELSE IF i \in g.deny THEN "deny" ELSE "ok"
Write(g, i, v) == IF MayWrite(g, i) THEN [g EXCEPT !.m[i] = v] ELSE g
\* access by position in the raw data never consults the per-cell policy
RawWrite(g, i, v) == IF g.raw THEN [g EXCEPT !.m[i] = v] ELSE g
Reset(g, v) == [g EXCEPT !.m = Fill(g.n, v)]
=============================================================================
