------------------------------- MODULE TaskPlan -------------------------------
(* Tasks: states 0..n-1; primitives, each with a table of possible outcomes and  *)
(* their costs (an entry of length 0 and cand = 0: not a candidate). Execution   *)
(* yields what it yields, whatever the tables say.                               *)
EXTENDS Shortest
\* a model: [n, cand[p][s], out[p][s] = sequence of <<state, cost>>, done = set of states, h]
Prims(M) == DOMAIN M.cand
Cand(M, p, s) == M.cand[p][s + 1] = 1
RECURSIVE EdgesOfPS(_, _, _)
EdgesOfPS(M, s, p) == IF p > Len(M.cand) THEN <<>>
                      ELSE (IF Cand(M, p, s) THEN [k \in DOMAIN M.out[p][s + 1] |-> <<s, M.out[p][s + 1][k][1], M.out[p][s + 1][k][2]>>] ELSE <<>>)
                           \o EdgesOfPS(M, s, p + 1)
RECURSIVE EdgesFrom(_, _)
EdgesFrom(M, s) == IF s >= M.n THEN <<>> ELSE EdgesOfPS(M, s, 1) \o EdgesFrom(M, s + 1)
Edges(M) == EdgesFrom(M, 0)
\* least cost from each state to completion
ToGo(M, E) == MinCosts(M.n, Reversed(E), [v \in 0..(M.n - 1) |-> IF v \in M.done THEN 0 ELSE INF])
Best(G, S) == BestOver(G, {S[k] : k \in DOMAIN S})
StepCosts(M, u, w, p) == {M.out[p][u + 1][k][2] : k \in {j \in DOMAIN M.out[p][u + 1] : M.out[p][u + 1][j][1] = w}}
\* a plan: sequence of <<state, primitive (0 at the start, else its number)>>
RECURSIVE PlanCost(_, _, _)
PlanCost(M, P, k) == IF k > Len(P) THEN 0 ELSE SMin(StepCosts(M, P[k - 1][1], P[k][1], P[k][2])) + PlanCost(M, P, k + 1)
PlanValid(M, S, P) ==
  /\ Len(P) > 0 /\ P[1][2] = 0 /\ (\E k \in DOMAIN S : S[k] = P[1][1]) /\ P[Len(P)][1] \in M.done
  /\ \A k \in 2..Len(P) : P[k][2] \in Prims(M) /\ Cand(M, P[k][2], P[k - 1][1]) /\ StepCosts(M, P[k - 1][1], P[k][1], P[k][2]) # {}
\* what planning from the states S may answer; G = ToGo, adm: the heuristic never overestimates
PlanOK(M, G, adm, S, P, cost) ==
  IF Best(G, S) >= INF THEN P = <<>> /\ cost = INF
  ELSE /\ PlanValid(M, S, P)
       /\ cost = PlanCost(M, P, 2)
       /\ adm => cost = Best(G, S)
AdmissibleH(M, G) == \A s \in 0..(M.n - 1) : 0 <= M.h[s + 1] /\ M.h[s + 1] <= G[s]
=============================================================================
