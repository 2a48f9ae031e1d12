------------------------------ MODULE KNearest ------------------------------
(* What a K-nearest query over items lo..hi-1 (0-based) of a collection with *)
(* distances d may answer, and a divide-and-merge way of answering it.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Min2(a, b) == IF a < b THEN a ELSE b
Ids(lo, hi) == lo..(hi - 1)
\* S is a set of k nearest among the candidate set C.
KNearestSet(d, C, k, S) ==
  /\ S \subseteq C /\ Cardinality(S) = Min2(k, Cardinality(C))
  /\ \A j \in C \ S : \A i \in S : d[j + 1] >= d[i + 1]
Valid(n, lo, hi, k) == lo <= hi /\ hi <= n /\ k >= 0
Answer(d, lo, hi, k, how, ix, ds) ==
  IF Valid(Len(d), lo, hi, k)
  THEN /\ how = "ok"
       /\ Len(ix) = Min2(k, hi - lo) /\ Len(ds) = Len(ix)
       /\ Cardinality({ix[j] : j \in 1..Len(ix)}) = Len(ix)
       /\ KNearestSet(d, Ids(lo, hi), k, {ix[j] : j \in 1..Len(ix)})
       /\ \A j \in 1..Len(ix) : ds[j] = d[ix[j] + 1]
  ELSE how = "err" /\ ix = <<>>
-----------------------------------------------------------------------------
(* Divide-and-merge: the range is cut into parts; each part yields any set   *)
(* of its own k nearest; the merge takes any k nearest of what was yielded.  *)
CONSTANTS MaxN, MaxD, MaxK, Lossy
VARIABLES d, lo, hi, k, part, todo, pool, answer, pc
vars == <<d, lo, hi, k, part, todo, pool, answer, pc>>
Init == /\ \E n \in 0..MaxN : d \in [1..n -> 0..MaxD]
        /\ lo \in 0..Len(d) /\ hi \in lo..Len(d) /\ k \in 0..MaxK
        /\ part \in SUBSET {x \in Ids(lo, hi) : x # lo}   \* cut points
        /\ todo = {lo} \cup part /\ pool = {} /\ answer = {} /\ pc = "search"
PartEnd(x) == IF \E y \in part : y > x THEN CHOOSE y \in part : y > x /\ \A z \in part : z > x => y <= z ELSE hi
SearchPart(x) == /\ pc = "search" /\ x \in todo
                 /\ \E S \in SUBSET Ids(x, PartEnd(x)) :
                      /\ KNearestSet(d, Ids(x, PartEnd(x)), k, S)
                      /\ pool' = (IF Lossy /\ pool # {} THEN S ELSE pool \cup S)
                 /\ todo' = todo \ {x} /\ UNCHANGED <<d, lo, hi, k, part, answer, pc>>
Merge == /\ pc = "search" /\ todo = {}
         /\ \E S \in SUBSET pool : KNearestSet(d, pool, k, S) /\ answer' = S
         /\ pc' = "done" /\ UNCHANGED <<d, lo, hi, k, part, todo, pool>>
Next == (\E x \in todo : SearchPart(x)) \/ Merge \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
MergeIsExact == pc = "done" => KNearestSet(d, Ids(lo, hi), k, answer)
=============================================================================
