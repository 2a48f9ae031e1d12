------------------------------ MODULE T_Search ------------------------------
EXTENDS SearchAnswer, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
ValidEdges(E) == SelectSeq(E, LAMBDA e : e[4] = 1 /\ e[3] < INF)
FiniteEdges(E) == SelectSeq(E, LAMBDA e : e[3] < INF)
Step(e) ==
  CASE e.op = "astar"    -> AnswerOK(e.n, ValidEdges(e.E), e.S, ToSet(e.G), e.h, e.how, e.path, e.cost)
    [] e.op = "dijkstra" -> DijkstraOK(e.n, FiniteEdges(e.E), e.s, e.how, e.dist, e.prev) /\ e.same
                            /\ e.bad = <<>>   \* a result saved, then cut short or changed: refused, or what the bytes spell
    \* graph searches: bad indices are refused, the graph stays the same
    [] e.op = "graph" ->
         /\ e.same
         /\ IF (\E i \in DOMAIN e.S : e.S[i][1] \notin 0..(e.n - 1)) \/ (\E i \in DOMAIN e.G : e.G[i] \notin 0..(e.n - 1))
            THEN e.how = "err"
            ELSE AnswerOK(e.n, ValidEdges(e.E), e.S, ToSet(e.G), e.h, e.how, e.path, e.cost)
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Step(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
