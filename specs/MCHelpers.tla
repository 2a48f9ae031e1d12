------------------------------ MODULE MCHelpers ------------------------------
(* The definitions against each other for all small arguments, and the counting procedure
   that compares two collections: tally both, compare the tallies. *)
EXTENDS Helpers
CONSTANTS Max, MaxLen, Bits
VARIABLES s, t, at, tally, pc, answer
vars == <<s, t, at, tally, pc, answer>>
Seqs(n) == UNION {[1..k -> 0..Max] : k \in 0..n}
Init == s \in Seqs(MaxLen) /\ t \in Seqs(MaxLen) /\ at = 1 /\ tally = [x \in 0..Max |-> 0] /\ pc = "add" /\ answer = TRUE
AddOne == /\ pc = "add" /\ UNCHANGED <<s, t, answer>>
          /\ IF at <= Len(s) THEN tally' = [tally EXCEPT ![s[at]] = @ + 1] /\ at' = at + 1 /\ UNCHANGED pc
             ELSE pc' = "take" /\ at' = 1 /\ UNCHANGED tally
TakeOne == /\ pc = "take" /\ UNCHANGED <<s, t>>
           /\ IF at > Len(t) THEN pc' = "done" /\ UNCHANGED <<at, tally, answer>>
              ELSE IF tally[t[at]] = 0 THEN pc' = "done" /\ answer' = FALSE /\ UNCHANGED <<at, tally>>
              ELSE tally' = [tally EXCEPT ![t[at]] = @ - 1] /\ at' = at + 1 /\ UNCHANGED <<pc, answer>>
Spec == Init /\ [][AddOne \/ TakeOne]_vars
Decides == pc = "done" => (answer = Subset(s, t)) /\ (SameItems(s, t) = (answer /\ Len(s) = Len(t)))
\* facts about the value helpers
Vals == 0..Max
ASSUME \A x, lo, hi \in Vals : lo <= hi => /\ Clamp(x, lo, hi) \in lo..hi
                                           /\ \A y \in lo..hi : LET d == Clamp(x, lo, hi) - x IN (IF d < 0 THEN -d ELSE d) <= (IF y < x THEN x - y ELSE y - x)
                                           /\ \A mid \in lo..hi : LET z == Spread(x, lo, mid, hi) IN ~(lo < z /\ z < hi) /\ Spread(z, lo, mid, hi) = z
ASSUME \A w \in [1..Bits -> BOOLEAN], p, q \in 0..(Bits - 1), b \in BOOLEAN : BitSet(w, p, b)[q + 1] = IF p = q THEN b ELSE w[q + 1]
\* every value is hit, in order, by nearly equal numbers of the 2^m inputs
ASSUME \A n \in 1..9, m \in 4..7 :
         LET N(v) == Cardinality({k \in 0..(2^m - 1) : Share(k, m, n) = v}) IN
         /\ \A k \in 0..(2^m - 1) : Share(k, m, n) \in 0..(n - 1)
         /\ \A v, u \in 0..(n - 1) : N(v) > 0 /\ N(v) - N(u) <= 1
=============================================================================
