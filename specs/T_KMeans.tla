------------------------------ MODULE T_KMeans -------------------------------
EXTENDS KMeans, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Same(p, q) == Len(p) = Len(q) /\ LET n(s, x) == Cardinality({i \in DOMAIN s : s[i] = x}) IN \A x \in {p[i] : i \in DOMAIN p} : n(p, x) = n(q, x)
RECURSIVE Members(_, _, _, _, _)
Members(e, labels, k, i, acc) ==
  IF i > Len(labels) THEN acc
  ELSE Members(e, labels, k, i + 1, IF labels[i] = k THEN Append(acc, <<e.items[i], e.w[i]>>) ELSE acc)
\* the averages of exactly the items so labelled were asked for
Averaged(e, labels, k) == \A j \in 0..(k - 1) : LET m == Members(e, labels, j, 1, <<>>) IN \E a \in DOMAIN e.avgs : Same(m, e.avgs[a])
EmptyAsked(e) == \E a \in DOMAIN e.avgs : e.avgs[a] = <<>>
Step(e) ==
  CASE e.op = "kmeans" ->
         LET n == Len(e.items) IN
         CASE n = 0 -> (e.st = "ok" /\ e.out = <<>>) \/ (e.st = "err" /\ e.k <= 0)
           [] n > 0 /\ (e.k <= 0 \/ e.k > n) -> e.st = "err"
           [] n > 0 /\ e.k = 1 -> e.st = "ok" /\ e.out = [i \in 1..n |-> 0]
           [] OTHER -> /\ e.st = "ok" \/ (e.st = "err" /\ e.strict /\ EmptyAsked(e))
                       /\ (e.st = "ok" => Fixed(e.items, e.w, e.out, e.k) /\ Averaged(e, e.out, e.k))
                       /\ e.st2 = e.st /\ e.out2 = e.out
    [] e.op = "round" -> \* one labelling with given centres
         IF e.items = <<>> THEN e.st = "ok" /\ e.out = <<>>
         ELSE IF e.centers = <<>> THEN e.st = "err"
         ELSE e.st = "ok" /\ InRange(e.out, Len(e.items), Len(e.centers)) /\ \A i \in DOMAIN e.items : Nearest(e.items[i], e.centers, e.out[i])
    [] e.op = "centers" ->
         IF Len(e.items) # Len(e.labels) THEN e.st = "err"
         ELSE e.st = "ok" /\ e.out = Centers(e.items, e.w, e.labels, e.k) /\ Averaged(e, e.labels, e.k) /\ Len(e.avgs) = e.k
    [] e.op = "conv" -> IF Len(e.a) # Len(e.b) THEN e.st = "err" ELSE e.st = "ok" /\ e.out = (e.a = e.b)
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
