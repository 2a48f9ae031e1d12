------------------------------ MODULE T_DynGrid ------------------------------
EXTENDS DynGrid, Sequences, Json, IOUtils
VARIABLES c, l, g
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
SetOf(s) == {s[k] : k \in DOMAIN s}
Sub(s, x) == [g EXCEPT ![s + 1] = x]
Same == g' = g
Quiet(e) == e.hooks = <<>> /\ e.raws = 0
\* the access hook sees the location, in the grid's frame
Heard(e, p) == SetOf(e.hooks) = {p} /\ e.raws = 0
Raws(e) == e.hooks = <<>>
OnTop(G, k, p) == \A a \in 1..3 : LET d == p[a] - k[a] * G.n[a] * G.cs[a] IN 0 <= d /\ d <= G.n[a] * G.cs[a]
TopCell(G, k, p) == [a \in 1..3 |-> LET i == FloorDiv(p[a] - k[a] * G.n[a] * G.cs[a], G.cs[a]) IN IF i = G.n[a] THEN i - 1 ELSE i]
Step(e) ==
  LET G == g[e.s + 1] IN
  CASE e.op = "new" -> /\ IF \E k \in 1..3 : e.n[k] < 1 THEN e.how = "err" /\ Same
                          ELSE e.how = "ok" /\ g' = Sub(e.s, New(e.n, e.cs, [P |-> e.P, t |-> e.t], e.def, SetOf(e.deny), e.left, e.raw))
                       /\ Quiet(e)
    [] e.op \in {"get", "set", "mut"} /\ ~G.init -> e.st = "err" /\ Same
    [] e.op = "get" -> LET p == ToGrid(G.pose, e.at) IN e.st = Read(G, p)[1] /\ e.v = Read(G, p)[2] /\ Quiet(e) /\ Same
    [] e.op = "set" -> LET p == ToGrid(G.pose, e.at) IN
                       e.st = SetStatus(G, p, e.whole) /\ Heard(e, p) /\ g' = Sub(e.s, Set(G, p, e.v, e.whole))
    [] e.op = "mut" -> LET p == ToGrid(G.pose, e.at) IN
                       /\ e.st = MutStatus(G, p) /\ (IF Has(G, p) THEN Heard(e, p) ELSE SetOf(e.hooks) \subseteq {p})
                       /\ (e.st \in {"cell", "chunk"} => e.old = Read(G, p)[2]) /\ g' = Sub(e.s, Mut(G, p, e.v))
    \* the chunks themselves
    [] e.op = "rclr" -> /\ IF G.raw THEN e.st = "ok" /\ g' = Sub(e.s, [G EXCEPT !.ch = <<>>]) ELSE e.st = "err" /\ Same
                        /\ Raws(e)
    [] e.op = "rput" -> \* write one cell (index i) of the chunk k, as the chunk itself sees it
         /\ Raws(e)
         /\ IF ~G.raw THEN e.st = "err" /\ Same
            ELSE IF e.k \notin Chunks(G) THEN e.st = "none" /\ Same
            ELSE IF G.ch[e.k].f = "chunk"
              THEN IF e.i = <<0, 0, 0>> THEN e.st = "chunk" /\ g' = Sub(e.s, PutChunk(G, e.k, Filled(G, "chunk", e.v))) ELSE e.st = "err" /\ Same
              ELSE IF Inside(G.n, e.i) THEN e.st = "cell" /\ g' = Sub(e.s, PutChunk(G, e.k, [G.ch[e.k] EXCEPT !.m[e.i] = e.v])) ELSE e.st = "err" /\ Same
    [] e.op = "rset" -> \* the chunk's own setters, at a location that may lie outside it
         /\ Raws(e)
         /\ IF ~G.raw THEN e.st = "err" /\ Same
            ELSE IF e.k \notin Chunks(G) THEN e.st = "none" /\ Same
            ELSE IF e.whole THEN e.st = "chunk" /\ g' = Sub(e.s, PutChunk(G, e.k, Filled(G, "chunk", e.v)))
            ELSE IF ChunkOf(G, e.at) = e.k THEN e.st = "cell" /\ g' = Sub(e.s, WriteCell(G, e.at, e.v))
            \* exactly on the chunk's upper border: refused, or taken as the cell at the border
            ELSE IF e.st = "cell" /\ OnTop(G, e.k, e.at) THEN g' = Sub(e.s, PutChunk(G, e.k, [f |-> "cell", m |-> [G.ch[e.k].m EXCEPT ![TopCell(G, e.k, e.at)] = e.v]]))
            ELSE e.st = "err" /\ (Same \/ g' = Sub(e.s, PutChunk(G, e.k, [G.ch[e.k] EXCEPT !.f = "cell"])))
    [] e.op = "sdef" -> Quiet(e) /\ g' = Sub(e.s, [G EXCEPT !.def = e.v])
    [] e.op = "pose" -> Quiet(e) /\ g' = Sub(e.s, [G EXCEPT !.pose = [P |-> e.P, t |-> e.t]])
    [] e.op = "deny" -> g' = Sub(e.s, [G EXCEPT !.deny = SetOf(e.deny), !.left = e.left, !.raw = e.raw])
    [] e.op \in {"copy", "save"} -> e.how = "ok" /\ Quiet(e) /\ g' = Sub(e.t, G)
    [] e.op = "cut" -> e.how = "err" /\ Quiet(e) /\ Same
    \* data damaged in any one byte is refused, or loads as a grid whose chunks can be read
    [] e.op = "spoil" -> e.bad = <<>> /\ (G.init => e.some) /\ Quiet(e) /\ Same
    \* cells whose size is no binary fraction: writing at a location and reading there
    [] e.op = "edge" -> e.how = "ok" /\ e.first = "none" /\ e.set = "cell" /\ e.st = "cell" /\ e.v = 7 /\ e.mut = "cell" /\ e.chunks = 1 /\ e.others = "default" /\ Same
    [] OTHER -> FALSE
View(e) == e.op = "edge" \/ \A s \in 1..2 : LET G == g'[s] o == e.g[s] IN
  IF ~G.init THEN ~o.init
  ELSE /\ o.init /\ o.def = G.def /\ o.left = G.left
       /\ SetOf([q \in DOMAIN o.ch |-> o.ch[q].k]) = Chunks(G) /\ Len(o.ch) = Cardinality(Chunks(G))
       /\ \A q \in DOMAIN o.ch : LET x == o.ch[q] y == G.ch[x.k] IN
            /\ x.f = y.f /\ x.exact
            /\ IF y.f = "chunk" THEN \A i \in DOMAIN x.m : x.m[i].v = y.m[<<0, 0, 0>>] /\ x.m[i].i = <<0, 0, 0>>
                                ELSE {x.m[i].i : i \in DOMAIN x.m} = CellsAll(G) /\ \A i \in DOMAIN x.m : x.m[i].v = y.m[x.m[i].i]
            \* doubled: the middle of the chunk and of its cells
            /\ x.mid = [a \in 1..3 |-> G.n[a] * G.cs[a] * (2 * x.k[a] + 1)]
            /\ \A i \in DOMAIN x.c : x.c[i].p = [a \in 1..3 |-> 2 * G.n[a] * G.cs[a] * x.k[a] + Centre2(G.cs, x.c[i].i)[a]]
TInit == c \in 1..Len(Cases) /\ l = 1 /\ g = <<NoGrid, NoGrid>>
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Step(Ev[l]) /\ Is(View(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, g>>
TSpec == TInit /\ [][TNext]_<<c, l, g>>
=============================================================================
