---------------------------- MODULE SearchAnswer ----------------------------
(* What a best-first search from starts S (sequence of <<node, cost>>) to any *)
(* of the goals G over the valid edges E, guided by h, may answer.            *)
EXTENDS Shortest
AnswerOK(n, E, S, G, h, how, path, cost) ==
  IF S = <<>> THEN how = "err" ELSE
  LET starts == {S[i][1] : i \in DOMAIN S}
      D0 == FromSources(n, S)
      D == MinCosts(n, E, D0)
      best == BestOver(D, G)
  IN /\ how = "ok"
     /\ IF starts \cap G # {}
        THEN \* a start that is a goal is answered directly, the cheapest such start
             /\ Len(path) = 1 /\ path[1] \in starts \cap G
             /\ cost = BestOver(D0, starts \cap G) /\ cost = D0[path[1]]
        ELSE IF best >= INF
        THEN path = <<>> /\ cost = INF
        ELSE /\ Len(path) >= 2 /\ path[1] \in starts /\ path[Len(path)] \in G
             /\ ConnectedPath(E, path)
             /\ IF Admissible(n, E, G, h)
                THEN cost = best /\ D0[path[1]] + PathCost(E, path) = best
                ELSE cost < INF /\ D0[path[1]] + PathCost(E, path) <= cost
DijkstraOK(n, E, s, how, dist, prev) ==
  IF s \notin 0..(n - 1) THEN how = "err" ELSE
  LET D == MinCosts(n, Reversed(E), [v \in 0..(n - 1) |-> IF v = s THEN 0 ELSE INF])
      RECURSIVE Chase(_, _)
      Chase(v, k) == IF v = s THEN TRUE ELSE IF k = 0 \/ v < 0 THEN FALSE ELSE Chase(prev[v + 1], k - 1)
  IN /\ how = "ok" /\ Len(dist) = n /\ Len(prev) = n
     /\ \A v \in 0..(n - 1) :
          /\ dist[v + 1] = D[v]
          /\ IF v = s THEN prev[v + 1] = s
             ELSE IF D[v] >= INF THEN prev[v + 1] = -1
             ELSE /\ prev[v + 1] \in 0..(n - 1) /\ HasEdge(E, v, prev[v + 1])
                  /\ \E w \in EdgeCosts(E, v, prev[v + 1]) : D[v] = D[prev[v + 1]] + w
                  /\ Chase(v, n)
=============================================================================
