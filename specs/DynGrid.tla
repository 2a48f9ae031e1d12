-------------------------------- MODULE DynGrid --------------------------------
(* A chunked voxel grid: a map from chunks to cells, where a chunk is in the map    *)
(* only after a write to it. A chunk is either filled as a whole ("chunk": all its  *)
(* cells read the one value) or cell by cell ("cell").                              *)
EXTENDS Grid, TLC
CellsAll(G) == CellsOf(G.n)
ChunkOf(G, p) == [k \in 1..3 |-> FloorDiv(p[k], G.n[k] * G.cs[k])]
CellIn(G, p) == [k \in 1..3 |-> FloorDiv(p[k], G.cs[k]) - ChunkOf(G, p)[k] * G.n[k]]
NoGrid == [init |-> FALSE]
\* left: how many accesses the policy still allows (-1: any number)
New(n, cs, pose, def, deny, left, raw) ==
  [init |-> TRUE, n |-> n, cs |-> cs, pose |-> pose, def |-> def, deny |-> deny, left |-> left, raw |-> raw, ch |-> <<>>]
Chunks(G) == DOMAIN G.ch
Filled(G, f, v) == [f |-> f, m |-> [i \in CellsAll(G) |-> v]]
Has(G, p) == ChunkOf(G, p) \in Chunks(G)
\* what a read of a location says: where the value was found, and the value (0 if none)
Read(G, p) == IF Has(G, p) THEN <<G.ch[ChunkOf(G, p)].f, G.ch[ChunkOf(G, p)].m[CellIn(G, p)]>> ELSE <<"none", 0>>
Allowed(G, p) == Cell(G.cs, p) \notin G.deny /\ G.left # 0
\* the policy was asked once
Asked(G) == IF G.left > 0 THEN [G EXCEPT !.left = @ - 1] ELSE G
PutChunk(G, k, x) == [G EXCEPT !.ch = (k :> x) @@ @]
\* a write of one cell: a chunk that was not there starts with the default everywhere,
\* one filled as a whole keeps its value in the other cells
WriteCell(G, p, v) ==
  LET k == ChunkOf(G, p)
      old == IF Has(G, p) THEN G.ch[k].m ELSE [i \in CellsAll(G) |-> G.def]
  IN PutChunk(G, k, [f |-> "cell", m |-> [old EXCEPT ![CellIn(G, p)] = v]])
WriteChunk(G, p, v) == PutChunk(G, ChunkOf(G, p), Filled(G, "chunk", v))
\* writing through the reference a mutable access gives
WriteFound(G, p, v) == IF Read(G, p)[1] = "chunk" THEN WriteChunk(G, p, v) ELSE WriteCell(G, p, v)
Set(G, p, v, whole) == IF ~Allowed(G, p) THEN G ELSE Asked(IF whole THEN WriteChunk(G, p, v) ELSE WriteCell(G, p, v))
SetStatus(G, p, whole) == IF ~Allowed(G, p) THEN "deny" ELSE IF whole THEN "chunk" ELSE "cell"
Mut(G, p, v) == IF ~Has(G, p) \/ ~Allowed(G, p) THEN G ELSE Asked(WriteFound(G, p, v))
MutStatus(G, p) == IF ~Has(G, p) THEN "none" ELSE IF ~Allowed(G, p) THEN "deny" ELSE Read(G, p)[1]
=============================================================================
