------------------------------- MODULE AStar -------------------------------
(* A best-first search over every small weighted directed graph: an open     *)
(* queue of (node, parent, cost-to-come, value), an explored map, optional   *)
(* suppression of worse duplicates in the queue; ties broken arbitrarily.    *)
(* Checked: what it answers satisfies SearchAnswer for every admissible      *)
(* (also inconsistent) heuristic.                                            *)
EXTENDS SearchAnswer, TLC
CONSTANTS N, Weights, StartCosts, HVals, WithDuplicateLimit, TwoStarts
NoEdge == -1
VARIABLES W, h, S, limit, queue, inq, expl, pc, answer
vars == <<W, h, S, limit, queue, inq, expl, pc, answer>>
Nodes == 0..(N - 1)
Goal == N - 1
Pairs == {p \in Nodes \X Nodes : p[1] # p[2] /\ p[1] # Goal}
RECURSIVE SetToEdges(_, _)
SetToEdges(P, w) == IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : TRUE IN <<<<p[1], p[2], w[p]>>>> \o SetToEdges(P \ {p}, w)
E == SetToEdges({p \in Pairs : W[p] # NoEdge}, W)
Starts == {<<<<0, c>>>> : c \in StartCosts} \cup (IF TwoStarts THEN {<<<<0, a>>, <<1, b>>>> : a \in StartCosts, b \in StartCosts} ELSE {})
HFun == [i \in 1..N |-> IF i = N THEN 0 ELSE h[i]]
Init ==
  /\ W \in [Pairs -> Weights \cup {NoEdge}]
  /\ h \in [1..N -> HVals] /\ h[N] = 0 /\ Admissible(N, E, {Goal}, h)
  /\ S \in Starts /\ limit \in WithDuplicateLimit
  /\ queue = {[s |-> S[i][1], p |-> -1, c |-> S[i][2], v |-> h[S[i][1] + 1]] : i \in DOMAIN S}
  /\ inq = [x \in Nodes |-> LET C == {S[i][2] : i \in {j \in DOMAIN S : S[j][1] = x}} IN IF C = {} THEN INF ELSE SMin(C)]
  /\ expl = [x \in Nodes |-> <<INF, -1>>] /\ pc = "search" /\ answer = <<<<>>, INF>>
RECURSIVE PathTo(_, _)
PathTo(x, ex) == IF ex[x][2] = -1 THEN <<x>> ELSE Append(PathTo(ex[x][2], ex), x)
Pop ==
  /\ pc = "search" /\ queue # {}
  /\ \E q \in queue :
       /\ \A r \in queue : q.v <= r.v
       /\ LET q1 == queue \ {q}
              inq1 == [inq EXCEPT ![q.s] = INF]
          IN IF q.c >= expl[q.s][1]
             THEN queue' = q1 /\ inq' = inq1 /\ UNCHANGED <<expl, pc, answer>>
             ELSE LET ex == [expl EXCEPT ![q.s] = <<q.c, q.p>>]
                      kids == {x \in Nodes : <<q.s, x>> \in Pairs /\ W[<<q.s, x>>] # NoEdge}
                      cost(x) == q.c + W[<<q.s, x>>]
                      add == {x \in kids : cost(x) < ex[x][1] /\ (limit => cost(x) < inq1[x])}
                  IN /\ expl' = ex
                     /\ IF q.s = Goal
                        THEN pc' = "done" /\ answer' = <<PathTo(Goal, ex), q.c>> /\ queue' = q1 /\ inq' = inq1
                        ELSE /\ queue' = q1 \cup {[s |-> x, p |-> q.s, c |-> cost(x), v |-> cost(x) + h[x + 1]] : x \in add}
                             /\ inq' = [x \in Nodes |-> IF x \in add THEN cost(x) ELSE inq1[x]]
                             /\ UNCHANGED <<pc, answer>>
  /\ UNCHANGED <<W, h, S, limit>>
GiveUp == pc = "search" /\ queue = {} /\ pc' = "done" /\ UNCHANGED <<W, h, S, limit, queue, inq, expl, answer>>
Next == Pop \/ GiveUp \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
AnswerCorrect == pc = "done" => AnswerOK(N, E, S, {Goal}, h, "ok", answer[1], answer[2])
=============================================================================
