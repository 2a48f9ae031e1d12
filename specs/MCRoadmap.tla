------------------------------ MODULE MCRoadmap ------------------------------
(* Every sequence of additions and re-evaluations over a few states, for all *)
(* validity tables, with an asymmetric distance table that also has ties.    *)
EXTENDS Roadmap, TLC, Json
CONSTANTS M, MaxLen, Ks, KeepHist, Tables
VARIABLES G, V, n, h
D == [a \in 1..M |-> [b \in 1..M |-> IF a = b THEN 0 ELSE IF a < b THEN b - a ELSE 2 * (a - b)]]
AllTables == [1..M -> [1..M -> {0, 1}]]
\* a family of validity tables: complete, one direction only, broken pairs
Family == CASE Tables = "all" -> {T \in AllTables : \A a \in 1..M : T[a][a] = 1}
            [] OTHER -> {[a \in 1..M |-> [b \in 1..M |-> 1]],
                         [a \in 1..M |-> [b \in 1..M |-> IF a <= b THEN 1 ELSE 0]],
                         [a \in 1..M |-> [b \in 1..M |-> IF a >= b THEN 1 ELSE 0]],
                         [a \in 1..M |-> [b \in 1..M |-> IF (a + b) % 2 = 0 THEN 1 ELSE 0]]}
H(x) == h' = (IF KeepHist THEN Append(h, x) ELSE h) /\ n' = n + 1
MInit == G = Empty /\ V \in Family /\ n = 0 /\ h = <<>> /\ g = [s \in Slots |-> Null]
MNext == \/ /\ n < MaxLen /\ UNCHANGED g
            /\ \/ \E x \in 0..(M - 1), t \in BOOLEAN, K \in Ks, dup \in BOOLEAN :
                    \E r \in AddResults(D, V, G, x, t, K, Size(G), dup) : G' = r[1] /\ V' = V /\ H(<<"A", x, t, K, dup>>)
               \/ \E W \in Family : V' = W /\ G' = Updated(D, W, G) /\ W # V /\ G # Empty /\ H(<<"U", W>>)
         \/ n = MaxLen /\ UNCHANGED <<G, V, n, h, g>>
MSpec == MInit /\ [][MNext]_<<G, V, n, h, g>>
EdgesAlwaysRight == EdgesRight(D, V, G)
BothEndsAgree == Linked(G)
\* A query between any two nodes: the relation used to judge answers picks the same
\* optimum as enumerating all simple paths.
RECURSIVE PathsFrom(_, _, _)
PathsFrom(E, a, seen) == {<<a, 0>>} \cup UNION {{<<p[1], p[2] + E[k][3]>> : p \in PathsFrom(E, E[k][2], seen \cup {a})} :
                              k \in {j \in DOMAIN E : E[j][1] = a /\ E[j][2] \notin seen \cup {a}}}
OptimumIsOptimum ==
  \A a \in 0..(Size(G) - 1), b \in 0..(Size(G) - 1) :
    LET E == UsableEdges(D, V, G, FALSE)
        costs == {p[2] : p \in {q \in PathsFrom(E, a, {}) : q[1] = b}}
    IN MinCosts(Size(G), E, FromSources(Size(G), <<<<a, 0>>>>))[b] = (IF costs = {} THEN INF ELSE SMin(costs))
\* The test of observed results and the enumeration of results agree.
TestIsEnumeration ==
  \A x \in 0..(M - 1), t \in BOOLEAN, K \in Ks, dup \in BOOLEAN :
    LET R == AddResults(D, V, G, x, t, K, Size(G), dup)
        one == AddOne(D, V, G, x, t, K, Size(G), dup)
        all == {<<G, i>> : i \in 0..(Size(G) - 1)} \cup {<<Linked2(D, V, G, x, S), Size(G)>> : S \in SUBSET (0..(Size(G) - 1))}
    IN /\ \A z \in all : AddOK(D, V, G, x, t, K, Size(G), dup, z[1], z[2]) <=> \E r \in R : SameGraph(r[1], z[1]) /\ r[2] = z[2]
       /\ ~one[3] => R = {<<one[1], one[2]>>}
Emit == n = MaxLen => PrintT(ToJson(h))
=============================================================================
