----------------------------- MODULE GraphStore -----------------------------
(* Graphs whose nodes hold a value and both ends of every directed edge.     *)
(* A graph is [v |-> values, o |-> out edges per node, i |-> in edges per    *)
(* node]; an edge is <<from, to, weight, scratch>>. g maps slots to graphs   *)
(* (Null: empty slot). Overlay slots hold what the overlay shows.            *)
EXTENDS Integers, Sequences, FiniteSets
Null == [v |-> <<-1>>, o |-> <<>>, i |-> <<>>]
Empty == [v |-> <<>>, o |-> <<>>, i |-> <<>>]
Size(G) == Len(G.v)
InR(G, k) == 0 <= k /\ k < Size(G)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])
SameGraph(G, H) == /\ G.v = H.v /\ Len(G.o) = Len(H.o) /\ Len(G.i) = Len(H.i)
                   /\ \A k \in DOMAIN G.o : SameBag(G.o[k], H.o[k])
                   /\ \A k \in DOMAIN G.i : SameBag(G.i[k], H.i[k])
\* Every out edge of a is an in edge of its target, and the other way round.
AllOf(f) == [k \in DOMAIN f |-> f[k]]
Linked(G) ==
  /\ \A a \in DOMAIN G.o : \A k \in DOMAIN G.o[a] :
       LET e == G.o[a][k] IN /\ e[1] = a - 1 /\ e[2] # e[1] /\ InR(G, e[2])
                             /\ Count(G.i[e[2] + 1], e) = Count(G.o[a], e)
  /\ \A a \in DOMAIN G.i : \A k \in DOMAIN G.i[a] :
       LET e == G.i[a][k] IN /\ e[2] = a - 1 /\ e[1] # e[2] /\ InR(G, e[1])
                             /\ Count(G.o[e[1] + 1], e) = Count(G.i[a], e)
\* The least the linkage check must refuse: an end outside the graph, at the wrong node,
\* a self edge, or an edge without any counterpart at its other end.
HalfLinked(G) ==
  /\ \A a \in DOMAIN G.o : \A k \in DOMAIN G.o[a] :
       LET e == G.o[a][k] IN e[1] = a - 1 /\ e[2] # e[1] /\ InR(G, e[2]) /\ \E j \in DOMAIN G.i[e[2] + 1] : G.i[e[2] + 1][j][1] = e[1]
  /\ \A a \in DOMAIN G.i : \A k \in DOMAIN G.i[a] :
       LET e == G.i[a][k] IN e[2] = a - 1 /\ e[1] # e[2] /\ InR(G, e[1]) /\ \E j \in DOMAIN G.o[e[1] + 1] : G.o[e[1] + 1][j][2] = e[2]
CheckAnswerOK(G, ans) == (Linked(G) => ans) /\ (~HalfLinked(G) => ~ans)

\* ---- operations on one graph ----
WithNode(G, x) == [v |-> Append(G.v, x), o |-> Append(G.o, <<>>), i |-> Append(G.i, <<>>)]
EdgeAllowed(G, a, b) == InR(G, a) /\ InR(G, b) /\ a # b
WithEdge(G, a, b, w) ==
  [G EXCEPT !.o[a + 1] = Append(@, <<a, b, w, 0>>), !.i[b + 1] = Append(@, <<a, b, w, 0>>)]
WithEdges(G, a, b, w) == WithEdge(WithEdge(G, a, b, w), b, a, w)
WithValue(G, k, x) == [G EXCEPT !.v[k + 1] = x]
FirstAt(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
\* one of the edges <<a, b, w, sc>> changes weight and scratch at both ends
WithWeight(G, e, w, sc) ==
  LET ne == <<e[1], e[2], w, sc>>
      ko == FirstAt(G.o[e[1] + 1], e)
      ki == FirstAt(G.i[e[2] + 1], e)
  IN [G EXCEPT !.o[e[1] + 1][ko] = ne, !.i[e[2] + 1][ki] = ne]
Renum(S, k) == k - Cardinality({x \in S : x < k})
Keep(es, S) == SelectSeq(es, LAMBDA e : e[1] \notin S /\ e[2] \notin S)
Move(es, S) == [k \in DOMAIN es |-> <<Renum(S, es[k][1]), Renum(S, es[k][2]), es[k][3], es[k][4]>>]
RECURSIVE KeptFrom(_, _, _)
KeptFrom(G, S, k) == IF k >= Size(G) THEN <<>> ELSE (IF k \in S THEN <<>> ELSE <<k>>) \o KeptFrom(G, S, k + 1)
Pruned(G, S) ==
  LET kept == KeptFrom(G, S, 0)
  IN [v |-> [k \in DOMAIN kept |-> G.v[kept[k] + 1]],
      o |-> [k \in DOMAIN kept |-> Move(Keep(G.o[kept[k] + 1], S), S)],
      i |-> [k \in DOMAIN kept |-> Move(Keep(G.i[kept[k] + 1], S), S)]]

CONSTANTS Slots
VARIABLE g
InitG == g = [s \in Slots |-> IF s = 0 THEN Empty ELSE Null]
Set(s, G) == g' = [g EXCEPT ![s] = G]
AddNode(s, x) == g[s] # Null /\ Set(s, WithNode(g[s], x))
\* a node that comes with an edge to a and an edge from b (a, b < 0: none yet to link to)
AddLinked(s, x, a, b, w) ==
  g[s] # Null /\ Set(s, IF Size(g[s]) = 0 THEN WithNode(g[s], x)
                        ELSE WithEdge(WithEdge(WithNode(g[s], x), Size(g[s]), a, w), b, Size(g[s]), w + 1))
AddEdge(s, a, b, w) == g[s] # Null /\ IF EdgeAllowed(g[s], a, b) THEN Set(s, WithEdge(g[s], a, b, w)) ELSE UNCHANGED g
AddEdges(s, a, b, w) == g[s] # Null /\ IF EdgeAllowed(g[s], a, b) THEN Set(s, WithEdges(g[s], a, b, w)) ELSE UNCHANGED g
SetValue(s, k, x) == g[s] # Null /\ IF InR(g[s], k) THEN Set(s, WithValue(g[s], k, x)) ELSE UNCHANGED g
HasEdgeAt(s, e) == InR(g[s], e[1]) /\ Count(g[s].o[e[1] + 1], e) > 0
SetWeight(s, e, w, sc) == g[s] # Null /\ IF HasEdgeAt(s, e) THEN Set(s, WithWeight(g[s], e, w, sc)) ELSE UNCHANGED g
PruneInto(s, d, S) == g[s] # Null /\ S \subseteq 0..(Size(g[s]) - 1) /\ Set(d, Pruned(g[s], S))
CopyInto(s, d) == g[s] # Null /\ Set(d, g[s])
Drop(s) == Set(s, Null)
=============================================================================
