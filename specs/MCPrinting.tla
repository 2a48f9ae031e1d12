----------------------------- MODULE MCPrinting -----------------------------
(* Lists of lists of numbers, and maps from numbers to lists, built by appending; with
   delimiters the text determines the value (so that a reader sees what was printed). *)
EXTENDS Printing, FiniteSets
CONSTANTS Nums, MaxLen
VARIABLES x
I(n) == [k |-> "int", v |-> n]
S(s) == [k |-> "seq", v |-> s]
Lists == {S(s) : s \in UNION {[1..n -> {I(i) : i \in Nums}] : n \in 0..MaxLen}}
Pairs == {[k |-> "pair", v |-> <<I(i), l>>] : i \in Nums, l \in Lists}
Init == x \in {S(<<>>), [k |-> "map", v |-> <<>>]}
Next == Len(x.v) < MaxLen /\ \E y \in (IF x.k = "seq" THEN Lists ELSE {p \in Pairs : \A i \in DOMAIN x.v : x.v[i].v[1].v < p.v[1].v}) : x' = [x EXCEPT !.v = Append(@, y)]
Spec == Init /\ [][Next]_x
\* one level: different values of one kind have different texts
Level == S(<<>>) \in Lists /\ Cardinality({Text(l, TRUE, ", ") : l \in Lists}) = Cardinality(Lists) /\ Cardinality({Text(l, FALSE, ", ") : l \in Lists}) = Cardinality(Lists)
\* the next level: what is appended can be told from the texts before and after
Told == LET Y == IF x.k = "seq" THEN Lists ELSE Pairs IN
  Len(x.v) < MaxLen => Cardinality({Text([x EXCEPT !.v = Append(@, y)], TRUE, ", ") : y \in Y}) = Cardinality(Y)
\* the delimiters nest
RECURSIVE Deep(_)
Deep(y) == IF y.k \in {"seq", "map"} THEN (y.v = <<>>) \/ \A i \in DOMAIN y.v : Deep(y.v[i]) ELSE TRUE
Nested == Deep(x) /\ (x.v # <<>> => Text(x, TRUE, ", ") # Text(x, FALSE, ", "))
=============================================================================
