---------------------------- MODULE MCGraphStore ----------------------------
(* Every history of at most MaxLen operations; also the history generator.  *)
EXTENDS GraphStore, TLC, Json
CONSTANTS MaxLen, MaxNodes, Weights, KeepHist, Overlay, Pre
VARIABLES h, n
S0 == IF Overlay THEN 2 ELSE 0
Idx == -1..(MaxNodes - 1)
H(x) == h' = (IF KeepHist THEN Append(h, x) ELSE h) /\ n' = n + 1
\* Pre: number of nodes / chain edges present at the beginning
RECURSIVE PreG(_)
PreG(k) == IF k = 0 THEN Empty ELSE LET G == WithNode(PreG(k - 1), k - 1) IN IF k > 1 THEN WithEdge(G, k - 2, k - 1, k) ELSE G
MInit == /\ g = [s \in Slots |-> IF s = 0 THEN PreG(Pre) ELSE IF Overlay /\ s = 2 THEN PreG(Pre) ELSE Null]
         /\ h = <<>> /\ n = 0
MNext ==
  \/ /\ n < MaxLen
     /\ \/ Size(g[S0]) < MaxNodes /\ AddNode(S0, 7 + n) /\ H(<<"N", S0, 7 + n>>)
        \/ \E a \in Idx, b \in Idx, w \in Weights : AddEdge(S0, a, b, w) /\ H(<<"E", S0, a, b, w>>)
        \/ \E a \in Idx, b \in Idx, w \in Weights : a <= b /\ AddEdges(S0, a, b, w) /\ H(<<"B", S0, a, b, w>>)
        \/ \E k \in Idx : SetValue(S0, k, 50 + n) /\ H(<<"V", S0, k, 50 + n>>)
        \/ \E S \in SUBSET (0..(Size(g[S0]) - 1)) :
             /\ S # {} \/ Overlay
             /\ IF Overlay THEN PruneInto(S0, 1, S) /\ H(<<"P", S0, 1, S>>)
                ELSE PruneInto(S0, 0, S) /\ H(<<"P", S0, 0, S>>)
        \/ ~Overlay /\ CopyInto(0, 1) /\ H(<<"C", 0, 1>>)
  \/ n = MaxLen /\ UNCHANGED <<g, h, n>>
MSpec == MInit /\ [][MNext]_<<g, h, n>>
BothEndsAgree == \A s \in Slots : g[s] # Null => Linked(g[s])
\* An overlay never changes its base.
BaseFixed == Overlay => g[0] = PreG(Pre)
\* Pruning in two steps equals pruning at once (up to renumbering).
PruneComposes ==
  \A S \in SUBSET (0..(Size(g[S0]) - 1)) : \A x \in (0..(Size(g[S0]) - 1)) \ S :
    SameGraph(Pruned(Pruned(g[S0], S), {Renum(S, x)}), Pruned(g[S0], S \cup {x}))
Emit == n = MaxLen => PrintT(ToJson(h))
=============================================================================
