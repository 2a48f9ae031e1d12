------------------------------ MODULE Shortest ------------------------------
(* Least path costs in a directed multigraph over nodes 0..n-1, edges given  *)
(* as a sequence of <<from, to, weight>> with weights >= 0.                  *)
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000000
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
ToSet(s) == {s[i] : i \in DOMAIN s}
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b

RECURSIVE RelaxEdges(_, _, _)
RelaxEdges(E, i, D) ==
  IF i > Len(E) THEN D
  ELSE LET e == E[i]
           nd == Plus(D[e[1]], e[3])
       IN RelaxEdges(E, i + 1, IF nd < D[e[2]] THEN [D EXCEPT ![e[2]] = nd] ELSE D)
RECURSIVE RelaxUntilStable(_, _)
RelaxUntilStable(E, D) ==
  LET D2 == RelaxEdges(E, 1, D) IN IF D2 = D THEN D ELSE RelaxUntilStable(E, D2)
\* D0: initial cost of each node (INF where not a source).
MinCosts(n, E, D0) == RelaxUntilStable(E, D0)
FromSources(n, S) ==   \* S: sequence of <<node, cost>>
  [v \in 0..(n - 1) |-> LET C == {S[i][2] : i \in {j \in DOMAIN S : S[j][1] = v}} IN IF C = {} THEN INF ELSE SMin(C)]
Reversed(E) == [i \in DOMAIN E |-> <<E[i][2], E[i][1], E[i][3]>>]
EdgeCosts(E, u, v) == {E[i][3] : i \in {j \in DOMAIN E : E[j][1] = u /\ E[j][2] = v}}
HasEdge(E, u, v) == \E i \in DOMAIN E : E[i][1] = u /\ E[i][2] = v
ConnectedPath(E, p) == \A i \in 1..(Len(p) - 1) : HasEdge(E, p[i], p[i + 1])
RECURSIVE PathCostFrom(_, _, _)
PathCostFrom(E, p, i) == IF i >= Len(p) THEN 0 ELSE SMin(EdgeCosts(E, p[i], p[i + 1])) + PathCostFrom(E, p, i + 1)
PathCost(E, p) == PathCostFrom(E, p, 1)
BestOver(D, G) == IF G = {} THEN INF ELSE SMin({D[g] : g \in G})
\* h never overestimates the cost of reaching one of G.
Admissible(n, E, G, h) ==
  LET D == MinCosts(n, Reversed(E), [v \in 0..(n - 1) |-> IF v \in G THEN 0 ELSE INF])
  IN \A v \in 0..(n - 1) : 0 <= h[v + 1] /\ (h[v + 1] <= D[v])
=============================================================================
