------------------------------ MODULE MCKMeans -------------------------------
(* Labelling and averaging in turn until the labels stay: all items on a line, weights and
   distinct initial choices. It always stops, at a fixed point; the total distance never
   rises, and where it stays no label rises. *)
EXTENDS KMeans, TLC
CONSTANTS N, K, Pos, Wts
VARIABLES items, w, centers, labels, done
vars == <<items, w, centers, labels, done>>
Init == /\ items \in [1..N -> {<<x, 0>> : x \in Pos}] /\ w \in [1..N -> Wts]
        /\ \E f \in [1..K -> 1..N] : (\A a, b \in 1..K : a # b => f[a] # f[b]) /\ centers = [j \in 1..K |-> items[f[j]]]
        /\ labels = Labels(items, centers) /\ done = FALSE
Round == /\ ~done
         /\ centers' = Centers(items, w, labels, K)
         /\ labels' = Labels(items, centers')
         /\ done' = (labels' = labels) /\ UNCHANGED <<items, w>>
Spec == Init /\ [][Round]_vars /\ WF_vars(Round)
Stops == <>done
EndsFixed == done => Fixed(items, w, labels, K)
Progress == [][LET a == Cost(items, w, labels, centers) b == Cost(items, w, labels', centers') IN
               b < a \/ (b = a /\ \A i \in 1..N : labels'[i] <= labels[i])]_vars
=============================================================================
