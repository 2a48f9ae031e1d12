-------------------------------- MODULE T_Grid --------------------------------
EXTENDS Grid, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == Cases[c]
Ev == K.ev
Is(b) == b = TRUE
Set(s) == {s[k] : k \in DOMAIN s}
Pose(e) == [P |-> e.P, t |-> e.t]
OK(e) ==
  CASE e.op = "size" -> \* requested: cell sizes cs and either lengths or counts (in small units; 0 or less, or not a number: bad)
         LET bad == (\E k \in 1..3 : e.cs[k] <= 0) \/ (\E k \in 1..3 : e.ask[k] <= 0)
         IN IF bad THEN e.how = "err"
            ELSE /\ e.how = "ok" /\ e.valid /\ e.cell = e.cs
                 /\ e.n = [k \in 1..3 |-> IF e.counts THEN e.ask[k] ELSE CeilDiv(e.ask[k], e.cs[k])]
                 /\ e.size = [k \in 1..3 |-> e.n[k] * e.cs[k]]
                 /\ (~e.counts => \A k \in 1..3 : e.size[k] >= e.ask[k])
                 /\ e.total = Total(e.n) /\ e.uniform = (e.cs[1] = e.cs[2] /\ e.cs[1] = e.cs[3])
                 /\ e.cellv /\ e.sizev /\ e.n2 = e.n
                 /\ e.saved                     \* saved and loaded: equal
    \* 2^e[1] x 2^e[2] x 2^e[3] cells: numbered one to one while a cell number fits 64 bits, else refused
    [] e.op = "vast" -> LET w == e.e[1] + e.e[2] + e.e[3]
                        IN IF w >= 63 THEN e.how = "err" /\ ~e.valid
                           ELSE IF e.valid THEN e.how = "ok" /\ e.tot = w /\ e.same ELSE e.how = "err" /\ w > 61
    [] e.op = "default" -> ~e.valid /\ e.total = 0 /\ e.how = "err" /\ ~e.inb
    \* the default pose puts the grid's middle at the world's origin: corner = -size/2 (doubled units)
    [] e.op = "pose0" -> e.t2 = [k \in 1..3 |-> -e.size[k]] /\ e.ident
    \* all cells: data index order, centre, and back
    [] e.op = "cells" ->
         /\ e.tab # <<>> /\ Len(e.tab) = Total(e.n) /\ {e.tab[k].i : k \in DOMAIN e.tab} = CellsOf(e.n)
         /\ {e.tab[k].d : k \in DOMAIN e.tab} = 0..(Total(e.n) - 1)
         /\ \A k \in DOMAIN e.tab : LET r == e.tab[k] IN
              /\ r.back = r.i /\ r.hash = r.d
              /\ r.cg = Centre2(e.cs, r.i)
              /\ r.cw = WorldCentre2(Pose(e), e.cs, r.i)
              /\ r.cell = r.i /\ r.inb
    \* locations in the world, every way of asking
    [] e.op = "loc" -> LET p == ToGrid(Pose(e), e.w) IN
         /\ \A k \in DOMAIN e.r : Near(e.cs, p, e.r[k].i) /\ e.r[k].inb = Inside(e.n, e.r[k].i)
         /\ Exact(e.cs, p) => \A k \in DOMAIN e.r : e.r[k].i = Cell(e.cs, p)
         /\ e.badw
    [] e.op = "far" -> \A k \in DOMAIN e.r : ~e.r[k]
    [] e.op = "eq" -> e.r = (e.a = e.b) /\ e.ne = ~e.r
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(OK(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
