---------------------------- MODULE T_GraphStore ----------------------------
EXTENDS GraphStore, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
How(e, ok) == e.how = (IF ok THEN "ok" ELSE "err")
Node(G, k) == <<G.v[k + 1], G.o[k + 1], G.i[k + 1]>>
Do(e) ==
  CASE e.op = "N" -> AddNode(e.s, e.x) /\ e.how = "ok" /\ e.r = Size(g[e.s])
    [] e.op = "M" -> AddLinked(e.s, e.x, e.a, e.b, e.w) /\ e.how = "ok" /\ e.r = Size(g[e.s])
    [] e.op = "E" -> AddEdge(e.s, e.a, e.b, e.w) /\ How(e, EdgeAllowed(g[e.s], e.a, e.b))
    [] e.op = "B" -> AddEdges(e.s, e.a, e.b, e.w) /\ How(e, EdgeAllowed(g[e.s], e.a, e.b))
    [] e.op = "V" -> SetValue(e.s, e.k, e.x) /\ How(e, InR(g[e.s], e.k))
    [] e.op = "W" -> SetWeight(e.s, e.e, e.w, e.sc)
    [] e.op = "P" -> PruneInto(e.s, e.d, {e.S[k] : k \in DOMAIN e.S}) /\ e.how = "ok"
    [] e.op = "C" -> CopyInto(e.s, e.d) /\ e.how = "ok"
    \* moving: the source is left in a valid but unspecified state and is emptied
    [] e.op = "S" -> CopyInto(e.s, e.d) /\ e.how = "ok" /\ e.wrote = e.read
    [] e.op = "O" -> CopyInto(e.s, e.d) /\ e.how = "ok"
    [] e.op = "G" -> UNCHANGED g /\ How(e, InR(g[e.s], e.k)) /\ e.inr = InR(g[e.s], e.k)
                     /\ (InR(g[e.s], e.k) => e.x = g[e.s].v[e.k + 1])
    [] e.op = "D" -> Drop(e.s)
    [] e.op = "T" -> UNCHANGED g /\ CheckAnswerOK(e.G, e.chk) /\ e.ctor = e.chk /\ e.deser = e.chk
    \* saved data cut short is refused; with a byte changed it is refused or loads as the linked graph it spells
    [] e.op = "X" -> UNCHANGED g /\ e.kept = <<>> /\ e.alien = <<>> /\ e.other = <<>> /\ e.some
    [] OTHER -> FALSE
\* st: what each slot shows after the operation; lk: its linkage check
Seen(e) == \A k \in DOMAIN e.st :
             LET s == e.st[k].s
             IN SameGraph(e.st[k].G, g'[s]) /\ e.st[k].lk /\ e.st[k].n = Size(g'[s])
AllSeen(e) == {e.st[k].s : k \in DOMAIN e.st} = {s \in Slots : g'[s] # Null}
TInit == c \in 1..Len(Cases) /\ l = 1 /\ InitG
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Do(Ev[l]) /\ Seen(Ev[l]) /\ AllSeen(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<g, c, l>>
TSpec == TInit /\ [][TNext]_<<g, c, l>>
BothEndsAgree == \A s \in Slots : g[s] # Null => Linked(g[s])
=============================================================================
