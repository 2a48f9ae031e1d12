------------------------------- MODULE Roadmap -------------------------------
(* Roadmaps: graphs over states 0..m-1 (a node's value is its state), with a *)
(* directed distance table D, a directed edge validity table V (both indexed *)
(* 1..m) and a state validity table SV.                                      *)
EXTENDS GraphStore, SearchAnswer
EdgeTo(D, V, a, b) == IF V[a + 1][b + 1] = 1 THEN D[a + 1][b + 1] ELSE INF

\* ---- nearest neighbours among node indices C by key(i) ----
Closer(key, C, i) == {j \in C : key[j] < key[i]}
Tied(key, C, i) == {j \in C : key[j] = key[i]}
Possible(key, C, K) == {i \in C : Cardinality(Closer(key, C, i)) < K}
Definite(key, C, K) == {i \in C : Cardinality(Closer(key, C, i)) + Cardinality(Tied(key, C, i)) <= K}
\* towards = TRUE: distance from the roadmap node to the new state
Key(D, G, x, towards) == [i \in 0..(Size(G) - 1) |-> IF towards THEN D[G.v[i + 1] + 1][x + 1] ELSE D[x + 1][G.v[i + 1] + 1]]
\* the edges that link a new node at index k holding x to node i
LinksIn(D, V, G, x, k, i) == IF V[G.v[i + 1] + 1][x + 1] = 1 THEN <<<<i, k, D[G.v[i + 1] + 1][x + 1], 0>>>> ELSE <<>>
LinksOut(D, V, G, x, k, i) == IF V[x + 1][G.v[i + 1] + 1] = 1 THEN <<<<k, i, D[x + 1][G.v[i + 1] + 1], 0>>>> ELSE <<>>
RECURSIVE FlatIn(_, _, _, _, _, _), FlatOut(_, _, _, _, _, _)
FlatIn(D, V, G, x, k, S) == IF S = {} THEN <<>> ELSE LET i == SMin(S) IN LinksIn(D, V, G, x, k, i) \o FlatIn(D, V, G, x, k, S \ {i})
FlatOut(D, V, G, x, k, S) == IF S = {} THEN <<>> ELSE LET i == SMin(S) IN LinksOut(D, V, G, x, k, i) \o FlatOut(D, V, G, x, k, S \ {i})
\* G with a new node holding x linked to exactly the nodes in S wherever valid
Linked2(D, V, G, x, S) ==
  LET k == Size(G) IN
  [v |-> Append(G.v, x),
   o |-> [i \in 1..(k + 1) |-> IF i = k + 1 THEN FlatOut(D, V, G, x, k, S)
                               ELSE IF (i - 1) \in S THEN G.o[i] \o LinksIn(D, V, G, x, k, i - 1) ELSE G.o[i]],
   i |-> [i \in 1..(k + 1) |-> IF i = k + 1 THEN FlatIn(D, V, G, x, k, S)
                               ELSE IF (i - 1) \in S THEN G.i[i] \o LinksOut(D, V, G, x, k, i - 1) ELSE G.i[i]]]
\* the sets of neighbours a K-nearest query may give
NbrSets(key, C, K) ==
  LET P == Possible(key, C, K)
      F == Definite(key, C, K)
      want == (IF Cardinality(C) < K THEN Cardinality(C) ELSE K) - Cardinality(F)
  IN IF P = F THEN {F} ELSE {F \cup X : X \in {Y \in SUBSET (P \ F) : Cardinality(Y) = want}}
Dups(key, S) == {i \in S : key[i] = 0}
\* Adding a state: the possible results <<graph, returned index>>.
AddResults(D, V, G, x, towards, K, maxIdx, addDup) ==
  LET key == Key(D, G, x, towards)
      C == 0..(maxIdx - 1)
  IN UNION {IF ~addDup /\ Dups(key, S) # {} THEN {<<G, i>> : i \in Dups(key, S)}
            ELSE {<<Linked2(D, V, G, x, S), Size(G)>>} : S \in NbrSets(key, C, K)}
\* The same as a test of an observed result <<H, r>>, without enumerating ties: L are
\* the old nodes that gained an edge.
AddOK(D, V, G, x, towards, K, maxIdx, addDup, H, r) ==
  LET k == Size(G)
      key == Key(D, G, x, towards)
      C == 0..(maxIdx - 1)
      P == Possible(key, C, K)
      F == Definite(key, C, K)
      dups == Dups(key, P)
      linkable(i) == V[G.v[i + 1] + 1][x + 1] = 1 \/ V[x + 1][G.v[i + 1] + 1] = 1
  IN IF ~addDup /\ dups # {} THEN r \in dups /\ SameGraph(G, H)
     ELSE /\ r = k /\ Size(H) = k + 1 /\ Len(H.o) = k + 1
          /\ LET L == {H.o[k + 1][j][2] : j \in DOMAIN H.o[k + 1]} \cup {H.i[k + 1][j][1] : j \in DOMAIN H.i[k + 1]}
                 want == (IF Cardinality(C) < K THEN Cardinality(C) ELSE K) - Cardinality(F)
             IN /\ L \subseteq P /\ {i \in F : linkable(i)} \subseteq L
                /\ Cardinality(L \ F) <= want
                /\ Cardinality(L \ F) + Cardinality({i \in P \ F : ~linkable(i)}) >= want
                /\ SameGraph(Linked2(D, V, G, x, L), H)
\* One of the possible results, and whether there are others.
AddOne(D, V, G, x, towards, K, maxIdx, addDup) ==
  LET key == Key(D, G, x, towards)
      C == 0..(maxIdx - 1)
      P == Possible(key, C, K)
      F == Definite(key, C, K)
      dups == Dups(key, P)
  IN IF ~addDup /\ dups # {} THEN <<G, SMin(dups), Cardinality(dups) > 1>>
     ELSE <<Linked2(D, V, G, x, F), Size(G), P # F>>

\* Re-evaluating every edge.
Updated(D, V, G) ==
  [G EXCEPT !.o = [a \in DOMAIN G.o |-> [k \in DOMAIN G.o[a] |-> LET e == G.o[a][k] IN <<e[1], e[2], EdgeTo(D, V, G.v[e[1] + 1], G.v[e[2] + 1]), e[4]>>]],
            !.i = [a \in DOMAIN G.i |-> [k \in DOMAIN G.i[a] |-> LET e == G.i[a][k] IN <<e[1], e[2], EdgeTo(D, V, G.v[e[1] + 1], G.v[e[2] + 1]), e[4]>>]]]

\* The property of every roadmap made under tables D, V.
EdgesRight(D, V, G) ==
  \A a \in DOMAIN G.o : \A k \in DOMAIN G.o[a] :
    LET e == G.o[a][k] IN e[1] # e[2] /\ e[3] = EdgeTo(D, V, G.v[e[1] + 1], G.v[e[2] + 1])
\* A roadmap built in one go over the states G.v: node b is linked with its K nearest
\* others (measured towards it; itself counts among the K + 1) in each valid direction.
BuiltOK(D, V, G, K) ==
  LET n == Size(G)
      C == 0..(n - 1)
      key(b) == [i \in C |-> D[G.v[i + 1] + 1][G.v[b + 1] + 1]]
      poss == [b \in C |-> Possible(key(b), C, K + 1) \ {b}]
      def == [b \in C |-> Definite(key(b), C, K + 1) \ {b}]
      has(a, b) == \E k \in DOMAIN G.o[a + 1] : G.o[a + 1][k][2] = b
  IN /\ Linked(G) /\ EdgesRight(D, V, G)
     /\ \A a \in C : \A k \in DOMAIN G.o[a + 1] : Cardinality({j \in DOMAIN G.o[a + 1] : G.o[a + 1][j][2] = G.o[a + 1][k][2]}) = 1
     /\ \A a \in C, b \in C : a # b =>
          /\ has(a, b) => V[G.v[a + 1] + 1][G.v[b + 1] + 1] = 1 /\ (a \in poss[b] \/ b \in poss[a])
          /\ (V[G.v[a + 1] + 1][G.v[b + 1] + 1] = 1 /\ (a \in def[b] \/ b \in def[a])) => has(a, b)
\* Which samples, drawn in order, become nodes: N states, at most tries draws for each.
RECURSIVE Draw(_, _, _, _, _, _, _)
Draw(D, SV, addDup, tries, s, acc, used) ==   \* <<accepted, number of samples used>> for one state
  IF used = tries \/ s = <<>> THEN <<-1, used>>
  ELSE IF SV[Head(s) + 1] = 1 /\ (addDup \/ \A i \in DOMAIN acc : D[acc[i] + 1][Head(s) + 1] > 0)
       THEN <<Head(s), used + 1>>
       ELSE Draw(D, SV, addDup, tries, Tail(s), acc, used + 1)
RECURSIVE Sampled(_, _, _, _, _, _, _)
Sampled(D, SV, addDup, tries, s, N, acc) ==   \* the accepted states, or <<-1>> when one cannot be found
  IF N = 0 THEN acc
  ELSE LET d == Draw(D, SV, addDup, tries, s, acc, 0)
       IN IF d[1] = -1 THEN <<-1>>
          ELSE Sampled(D, SV, addDup, tries, SubSeq(s, d[2] + 1, Len(s)), N - 1, Append(acc, d[1]))

\* ---- queries ----
RECURSIVE JoinAll(_, _, _, _, _, _, _, _, _)
\* states xs added one after another, each linked to nodes below maxIdx; the results
\* <<graph, indices, ambiguous>>
JoinAll(D, V, G, xs, towards, K, maxIdx, addDup, acc) ==
  IF xs = <<>> THEN <<G, acc[1], acc[2]>>
  ELSE LET R == AddOne(D, V, G, Head(xs), towards, K, maxIdx, addDup)
           amb == acc[2] \/ R[3]
       IN JoinAll(D, V, R[1], Tail(xs), towards, K, maxIdx, addDup, <<Append(acc[1], R[2]), amb>>)
RECURSIVE ConcatFrom(_, _)
ConcatFrom(f, k) == IF k > Len(f) THEN <<>> ELSE f[k] \o ConcatFrom(f, k + 1)
EdgeList(G) == ConcatFrom(G.o, 1)
\* edges a query may use: eager trusts the stored weights, lazy asks the tables
UsableEdges(D, V, G, lazy) ==
  LET es == EdgeList(G)
      w(e) == IF lazy THEN EdgeTo(D, V, G.v[e[1] + 1], G.v[e[2] + 1]) ELSE e[3]
  IN SelectSeq([k \in DOMAIN es |-> <<es[k][1], es[k][2], w(es[k])>>], LAMBDA e : e[3] < INF)
DistinctValues(G) == \A i, j \in DOMAIN G.v : G.v[i] = G.v[j] => i = j
\* the answer, given as states; J is the joined roadmap
QueryOK(D, V, J, si, gi, lazy, path, cost, exact) ==
  LET n == Size(J)
      E == UsableEdges(D, V, J, lazy)
      S == [k \in DOMAIN si |-> <<si[k], 0>>]
      Gs == ToSet(gi)
      h == [a \in 1..n |-> SMin({D[J.v[a] + 1][J.v[q + 1] + 1] : q \in Gs})]
      best == BestOver(MinCosts(n, E, FromSources(n, S)), Gs)
      val(k) == J.v[k + 1]
      stepCosts(a, b) == {E[k][3] : k \in {j \in DOMAIN E : val(E[j][1]) = a /\ val(E[j][2]) = b}}
      RECURSIVE Sum(_)
      Sum(k) == IF k >= Len(path) THEN 0 ELSE SMin(stepCosts(path[k], path[k + 1])) + Sum(k + 1)
      wellFormed == /\ path[1] \in {val(si[k]) : k \in DOMAIN si}
                    /\ path[Len(path)] \in {val(z) : z \in Gs}
                    /\ \A k \in 1..(Len(path) - 1) : stepCosts(path[k], path[k + 1]) # {}
                    /\ Sum(1) <= cost
  IN IF ~exact THEN path # <<>> => \A k \in 1..(Len(path) - 1) : lazy => V[path[k] + 1][path[k + 1] + 1] = 1
     ELSE IF best >= INF THEN path = <<>> /\ cost = INF
     ELSE /\ path # <<>> /\ wellFormed
          /\ Admissible(n, E, Gs, h) => cost = best
          /\ (Admissible(n, E, Gs, h) /\ DistinctValues(J)) => Sum(1) = best
=============================================================================
