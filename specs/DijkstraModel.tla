---------------------------- MODULE DijkstraModel ----------------------------
(* Label setting from one node backwards along edges, ties broken freely.    *)
EXTENDS SearchAnswer, TLC
CONSTANTS N, Weights
VARIABLES W, dist, prev, open, closed, pc
vars == <<W, dist, prev, open, closed, pc>>
Nodes == 0..(N - 1)
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}
RECURSIVE SetToEdges(_, _)
SetToEdges(P, w) == IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : TRUE IN <<<<p[1], p[2], w[p]>>>> \o SetToEdges(P \ {p}, w)
E == SetToEdges({p \in Pairs : W[p] # -1}, W)
Init == /\ W \in [Pairs -> Weights \cup {-1}]
        /\ dist = [v \in Nodes |-> IF v = 0 THEN 0 ELSE INF] /\ prev = [v \in Nodes |-> IF v = 0 THEN 0 ELSE -1]
        /\ open = {<<0, 0>>} /\ closed = {} /\ pc = "run"
Pop == /\ pc = "run" /\ open # {}
       /\ \E q \in open :
            /\ \A r \in open : q[2] <= r[2]
            /\ IF q[1] \in closed THEN open' = open \ {q} /\ UNCHANGED <<dist, prev, closed>>
               ELSE LET better == {v \in Nodes : <<v, q[1]>> \in Pairs /\ W[<<v, q[1]>>] # -1 /\ q[2] + W[<<v, q[1]>>] < dist[v]}
                    IN /\ closed' = closed \cup {q[1]}
                       /\ dist' = [v \in Nodes |-> IF v \in better THEN q[2] + W[<<v, q[1]>>] ELSE dist[v]]
                       /\ prev' = [v \in Nodes |-> IF v \in better THEN q[1] ELSE prev[v]]
                       /\ open' = (open \ {q}) \cup {<<v, q[2] + W[<<v, q[1]>>]>> : v \in better}
       /\ UNCHANGED <<W, pc>>
Stop == pc = "run" /\ open = {} /\ pc' = "done" /\ UNCHANGED <<W, dist, prev, open, closed>>
Next == Pop \/ Stop \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Correct == pc = "done" => DijkstraOK(N, E, 0, "ok", [k \in 1..N |-> dist[k - 1]], [k \in 1..N |-> prev[k - 1]])
=============================================================================
