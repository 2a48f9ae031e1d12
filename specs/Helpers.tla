------------------------------- MODULE Helpers -------------------------------
(* What the collection, value and bit helpers answer. Collections are sequences of small
   integers, maps sequences of <<key, value>>, words sequences of bits (lowest first). *)
EXTENDS Integers, Sequences, FiniteSets
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Elems(s) == {s[i] : i \in DOMAIN s}
Subset(s, t) == \A x \in Elems(t) : Count(t, x) <= Count(s, x)
SameItems(s, t) == Subset(s, t) /\ Subset(t, s)
Distinct(s) == Cardinality(Elems(s)) = Len(s)
\* the map made by storing each pair in turn: the last one of a key stays
LastOf(pairs, k) == LET I == {i \in DOMAIN pairs : pairs[i][1] = k} IN pairs[CHOOSE i \in I : \A j \in I : j <= i][2]
MapOf(pairs) == {<<k, LastOf(pairs, k)>> : k \in {pairs[i][1] : i \in DOMAIN pairs}}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Rising(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* values between the thresholds go to the one on their side of the middle, the middle up
Spread(x, lo, mid, hi) == IF x >= mid /\ x < hi THEN hi ELSE IF x < mid /\ x > lo THEN lo ELSE x
BitSet(w, p, b) == [w EXCEPT ![p + 1] = b]
Contains(s, t) == \E i \in 0..(Len(s) - Len(t)) : \A k \in DOMAIN t : s[i + k] = t[k]
\* the share of [0, 1) that u = k/2^m falls in
Share(k, m, n) == (k * n) \div (2^m)
=============================================================================
