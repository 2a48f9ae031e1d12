------------------------------ MODULE T_Linkage ------------------------------
EXTENDS Linkage, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Set(q) == {q[i] : i \in DOMAIN q}
Parts(e) == {{x + 1 : x \in Set(q)} : q \in Set(e.out)}
RECURSIVE Total(_, _)
Total(q, i) == IF i > Len(q) THEN 0 ELSE Len(q[i]) + Total(q, i + 1)
Step(e) ==
  CASE e.op = "cluster" ->
         IF e.n = 0 \/ e.rows # e.n \/ e.cols # e.n THEN e.st = "err"
         ELSE LET P == Parts(e) IN
              /\ e.st = "ok"
              /\ Total(e.out, 1) = e.n          \* no item twice
              /\ Cardinality(P) = Len(e.out)    \* no part twice
              /\ Good(e.D, e.single, e.max, e.n, P, e.d)
              /\ (e.n <= 6 \/ Distinct(e.D, e.n) => [P |-> P, d |-> e.d] \in AllEnds(e.D, e.single, e.max, e.n))
    [] e.op = "table" -> e.st = "ok" /\ e.out = e.D
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
