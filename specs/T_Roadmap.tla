------------------------------ MODULE T_Roadmap ------------------------------
EXTENDS Roadmap, TLC, Json, IOUtils
VARIABLES c, l, G, V
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
D == Cases[c].D
SV == Cases[c].SV
m == Len(D)
\* evaluated as a value, not as an action with alternatives
Is(b) == b = TRUE
SameG(a, b) == SameGraph(a, b) = TRUE
Stats(e) == e.total = Len(e.samples) /\ e.fail = Cardinality({k \in DOMAIN e.samples : SV[e.samples[k] + 1] = 0})
            /\ e.succ = Size(e.G) - e.n0 /\ e.dup = e.total - e.fail - e.succ
SeqSet(s) == {s[k] : k \in DOMAIN s}
Do(e) ==
  CASE e.op = "V" -> V' = e.V /\ UNCHANGED G                \* the caller changes validity
    \* one state added
    [] e.op = "A" -> /\ Is(AddOK(D, V, G, e.x, e.to, e.K, e.max, e.dup, e.G, e.r))
                     /\ e.how = "ok" /\ G' = e.G /\ V' = V
    \* one state added, neighbours named by a caller-supplied provider
    [] e.op = "N" -> LET bad == \E k \in DOMAIN e.nbr : e.nbr[k] < 0 \/ e.nbr[k] >= Size(G) \/ e.nbr[k] >= e.max
                     IN IF bad THEN e.how = "err" /\ SameG(G, e.G) /\ UNCHANGED <<G, V>>
                        ELSE e.how = "ok" /\ SameG(Linked2(D, V, G, e.x, SeqSet(e.nbr)), e.G) /\ G' = e.G /\ V' = V
    \* growing, one sample at a time: e.G is the roadmap when the sample is asked for
    [] e.op = "g0" -> SameG(G, e.G) /\ UNCHANGED <<G, V>>
    [] e.op = "gs" -> /\ e.more             \* the condition to stop did not hold
                      /\ IF SV[e.x + 1] = 0 THEN SameG(G, e.G)
                         ELSE Is(\E r \in 0..Size(G) : AddOK(D, V, G, e.x, TRUE, e.K, Size(G), e.dup, e.G, r))
                      /\ G' = e.G /\ V' = V
    [] e.op = "g1" -> SameG(G, e.G) /\ ~e.more /\ Stats(e) /\ e.how = "ok" /\ UNCHANGED <<G, V>>
    [] e.op = "B" -> IF e.N < 0 \/ e.K < 1 \/ e.tries < 1 THEN e.how = "err" /\ G' = Empty /\ V' = V
                     ELSE IF e.par THEN
                       \* states drawn in parallel: which sample feeds which node is open
                       \/ e.how = "err" /\ (\E k \in DOMAIN e.samples : SV[e.samples[k] + 1] = 0) /\ G' = Empty /\ V' = V
                       \/ /\ e.how = "ok" /\ Size(e.G) = e.N
                          /\ \A k \in DOMAIN e.G.v : SV[e.G.v[k] + 1] = 1 /\ Count(e.G.v, e.G.v[k]) <= Count(e.samples, e.G.v[k])
                          /\ Is(BuiltOK(D, V, e.G, e.K)) /\ G' = e.G /\ V' = V
                     ELSE LET a == Sampled(D, SV, e.dup, e.tries, e.samples, e.N, <<>>)
                          IN IF a = <<-1>> THEN e.how = "err" /\ G' = Empty /\ V' = V
                             ELSE e.how = "ok" /\ e.G.v = a /\ Is(BuiltOK(D, V, e.G, e.K)) /\ G' = e.G /\ V' = V
    [] e.op = "U" -> SameG(Updated(D, V, G), e.G) /\ e.how = "ok" /\ G' = e.G /\ V' = V
    \* queries
    [] e.op = "Q" ->
         IF e.S = <<>> \/ e.Gl = <<>> THEN e.how = "err" /\ UNCHANGED <<G, V>>   \* the roadmap is compared below
         ELSE LET j1 == JoinAll(D, V, G, e.S, FALSE, e.K, Size(G), e.dup, <<<<>>, FALSE>>)
                  j2 == JoinAll(D, V, j1[1], e.Gl, TRUE, e.K, Size(j1[1]), e.dup, <<<<>>, FALSE>>)
                  exact == ~j1[3] /\ ~j2[3]
              IN /\ e.how = "ok"
                 /\ Is(QueryOK(D, V, j2[1], j1[2], j2[2], e.lazy, e.path, e.cost, exact))
                 /\ IF e.add THEN (exact => SameG(j2[1], e.G)) /\ G' = e.G ELSE SameG(G, e.G) /\ UNCHANGED G
                 /\ V' = V
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ G = Empty /\ V = Cases[c].V /\ g = [s \in Slots |-> Null]
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ g' = g /\ Do(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<G, V, c, l, g>>
TSpec == TInit /\ [][TNext]_<<G, V, c, l, g>>
BothEndsAgree == Linked(G)
=============================================================================
