------------------------------- MODULE T_Circle -------------------------------
EXTENDS Circle, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Sent == -1000000002
Step(e) ==
  CASE e.op = "wrap" -> e.inr /\ Same(e.r, e.a)
    [] e.op = "signed" -> e.inr /\ Same(e.r, e.b - e.a) /\ Abs(e.r) = Dist(e.a, e.b) /\ (e.a = e.b => e.zero)
    [] e.op = "dist" -> e.r = Dist(e.a, e.b) /\ e.r2 = e.r
    [] e.op = "add" -> e.inr /\ Same(e.r, e.a + e.b)
    [] e.op = "range" -> e.r >= 0 /\ e.r <= Turn /\ Same(e.r, e.b - e.a) /\ (e.a = e.b => e.zero)
    [] e.op = "inrange" -> e.v = InRange(e.a, e.b, e.x)
    [] e.op = "inbounds" -> e.v = InBounds(e.a, e.b, e.x)
    [] e.op = "ends" -> e.v
    [] e.op = "interp" -> e.inr /\ \E x \in Between(e.a, e.b, e.n) : Same(e.r, x)
    [] e.op = "small" ->
         LET d == 1000000 * e.s
             N5(x, y) == Abs(x - y) <= 20 IN
         /\ N5(e.signed, d) /\ N5(e.back, -d) /\ N5(e.dist, Abs(d)) /\ N5(e.range, Abs(d)) /\ N5(2 * e.half, d) /\ N5(e.add, d)
         /\ N5(2 * e.avg, d) /\ N5(4 * e.wavg, d) /\ e.in /\ ~e.out
    [] e.op = "avg" ->
         IF Len(e.as) = 0 \/ (Len(e.w) # 0 /\ Len(e.w) # Len(e.as)) \/ (Len(e.w) # 0 /\ \A i \in DOMAIN e.w : e.w[i] = 0) THEN e.st = "err"
         ELSE /\ e.st = "ok"
              /\ LET w == IF Len(e.w) = 0 THEN [i \in DOMAIN e.as |-> 1] ELSE e.w
                     A == e.as[First(w)] IN
                 /\ e.inr /\ e.total = Weights(w)
                 /\ OnArc(e.as, w) => (e.r - (A * Weights(w) + Offsets(A, e.as, w))) % (Turn * Weights(w)) = 0
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
