------------------------------ MODULE T_VoxelMap ------------------------------
EXTENDS VoxelMap, TLC, Json, IOUtils
VARIABLES c, l, g
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Set(s) == {s[k] : k \in DOMAIN s}
Sub(s, x) == [g EXCEPT ![s + 1] = x]
Same == g' = g
\* the cell an access names: triple or location, read in the world frame
Where(G, e) == IF e.form = "i" THEN e.at ELSE Cell(G.cs, ToGrid(G.pose, e.at))
\* the hook sees exactly the cell accessed, when the cell exists
HookOK(G, e, i) == Set(e.hooks) = (IF Has(G, i) THEN {i} ELSE {}) /\ e.raws = 0
Quiet(e) == e.hooks = <<>> /\ e.raws = 0
\* the raw data holds the cells' values in the order of the data indices
DataIdx(G, i) == CHOOSE k \in DOMAIN G.map : G.map[k] = i
AsMap(mp, d) == [i \in Set(mp) |-> d[CHOOSE k \in DOMAIN mp : mp[k] = i]]
Bijection(mp, n) == Len(mp) = Total(n) /\ Set(mp) = CellsOf(n)
Grid0(e) == New(e.n, e.cs, [P |-> e.P, t |-> e.t], e.def, e.oob, Set(e.deny), e.raw)
ValidPos(G, d) == G.init /\ d >= 0 /\ d < Total(G.n)
Step(e) ==
  LET G == g[e.s + 1] IN
  CASE e.op = "new" -> Bijection(e.map, e.n) /\ Quiet(e) /\ g' = Sub(e.s, Grid0(e) @@ ("map" :> e.map))
    [] e.op = "get" -> /\ LET r == IF G.init THEN Read(G, Where(G, e)) ELSE <<"oob", 0>> IN e.st = r[1] /\ (r[1] = "ok" => e.v = r[2])
                       /\ Quiet(e) /\ Same
    [] e.op = "set" -> LET i == Where(G, e) IN e.st = WriteStatus(G, i) /\ HookOK(G, e, i) /\ g' = Sub(e.s, Write(G, i, e.v))
    \* access to change: the reference given is written through
    [] e.op = "mut" -> LET i == Where(G, e) IN
                       /\ e.st = WriteStatus(G, i) /\ HookOK(G, e, i) /\ (e.st = "ok" => e.old = G.m[i]) /\ g' = Sub(e.s, Write(G, i, e.v))
    [] e.op = "rget" -> /\ IF ValidPos(G, e.d) THEN e.st = "ok" /\ e.v = G.m[G.map[e.d + 1]] ELSE e.st = "err"
                        /\ Quiet(e) /\ Same
    [] e.op \in {"rset", "rmut"} ->
         /\ IF ValidPos(G, e.d) /\ G.raw THEN e.st = "ok" /\ g' = Sub(e.s, RawWrite(G, G.map[e.d + 1], e.v)) ELSE e.st = "err" /\ Same
         /\ e.hooks = <<>> /\ (e.st = "ok" => e.raws >= 1)
    \* all raw data at once
    [] e.op = "rall" -> /\ IF G.init /\ G.raw /\ Len(e.data) = Total(G.n) THEN e.st = "ok" /\ g' = Sub(e.s, [G EXCEPT !.m = AsMap(G.map, e.data)]) ELSE e.st = "err" /\ Same
                        /\ e.hooks = <<>>
    [] e.op = "rref" -> /\ IF G.init /\ G.raw THEN e.st = "ok" ELSE e.st = "err"
                        /\ e.hooks = <<>>
                        /\ IF e.st = "ok" THEN g' = Sub(e.s, [G EXCEPT !.m[G.map[1]] = e.v]) ELSE Same
    [] e.op = "fill" -> Quiet(e) /\ g' = Sub(e.s, Reset(G, e.v))
    [] e.op = "fdef" -> Quiet(e) /\ g' = Sub(e.s, Reset(G, G.def))
    [] e.op = "ndef" -> Quiet(e) /\ g' = Sub(e.s, Reset([G EXCEPT !.def = e.v], e.v))
    [] e.op = "sdef" -> Quiet(e) /\ g' = Sub(e.s, [G EXCEPT !.def = e.v])
    [] e.op = "soob" -> Quiet(e) /\ g' = Sub(e.s, [G EXCEPT !.oob = e.v])
    [] e.op = "pose" -> Quiet(e) /\ g' = Sub(e.s, [G EXCEPT !.pose = [P |-> e.P, t |-> e.t]])
    [] e.op = "deny" -> g' = Sub(e.s, [G EXCEPT !.deny = Set(e.deny), !.raw = e.raw])
    [] e.op \in {"copy", "save"} -> e.how = "ok" /\ Quiet(e) /\ g' = Sub(e.t, G)
    [] e.op = "cut" -> e.how = "err" /\ Quiet(e) /\ Same
    \* data damaged in any one byte is refused, or loads as a grid whose every cell can be read
    [] e.op = "spoil" -> e.bad = <<>> /\ (G.init => e.some) /\ Quiet(e) /\ Same
    [] OTHER -> FALSE
\* what the real grids hold, as seen through every way of reading
View(e) == \A s \in 1..2 : LET G == g'[s] o == e.g[s] IN
             IF ~G.init THEN ~o.init
             ELSE /\ o.init /\ o.def = G.def /\ o.oob = G.oob /\ o.n = G.n
                  /\ o.data = [k \in 1..Total(G.n) |-> G.m[G.map[k]]]
                  /\ o.byi = o.data /\ o.byl = o.data
TInit == c \in 1..Len(Cases) /\ l = 1 /\ g = <<NoGrid, NoGrid>>
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Step(Ev[l]) /\ Is(View(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, g>>
TSpec == TInit /\ [][TNext]_<<c, l, g>>
=============================================================================
