----------------------------- MODULE T_Sampling -----------------------------
EXTENDS Sampling, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
\* evaluated once each
E1 == Expect1
E2 == Expect2
E3 == Expect3
\* average products of entries in units of 10^-4: 40000 samples, seven standard deviations
Close(m, e) == \A n \in DOMAIN e : Abs(m[n] - (10000 * e[n]) \div 24) <= 205
Near(x, y, tol) == Abs(x - y) <= tol
\* r in units of 1/u against num / den
Ratio(r, u, num, den, slack) == Abs(r * den - u * num) <= den \div 2 + slack
Step(e) ==
  CASE e.op = "draw" ->
         /\ e.out = 0 /\ Len(e.below) = Len(e.cuts)
         /\ \A i \in DOMAIN e.cuts : LET x == (e.n * Share(e.cuts[i], e.lo, e.hi)) \div Whole(e.lo, e.hi) IN
              /\ Believable(e.below[i], x, e.n)
              /\ (i > 1 => LET y == (e.n * Share(e.cuts[i - 1], e.lo, e.hi)) \div Whole(e.lo, e.hi) IN Believable(e.below[i] - e.below[i - 1], x - y, e.n))
    [] e.op = "point" -> e.r = "ok" /\ e.v = <<e.want, e.want, e.want>>
    [] e.op = "refuse" -> e.r = "err"
    [] e.op = "eval" ->
         /\ Near(e.cdf, Cum(e.v) \div 100, 1) /\ Near(e.pdf, Dens(e.v) \div 100, 1)
         /\ Near(e.integ, (Cum(e.v2) - Cum(e.v)) \div 100, 2)
         /\ Ratio(e.tcdf, 10000, Share(e.v, e.lo, e.hi), Whole(e.lo, e.hi), 30000)
         /\ Ratio(e.tinteg, 10000, Share(e.v2, e.lo, e.hi) - Share(e.v, e.lo, e.hi), Whole(e.lo, e.hi), 30000)
         /\ IF e.v <= e.lo \/ e.v >= e.hi THEN e.tpdf = 0 ELSE Ratio(e.tpdf, 1000, Dens(e.v) \div Coarse(e.lo, e.hi), Whole(e.lo, e.hi), 3000 + 3 * Abs(e.tpdf))
         /\ (e.v <= e.lo => e.tcdf = 0) /\ (e.v >= e.hi => e.tcdf = 10000)
    [] e.op = "mvn" ->
         LET d == DOMAIN e.mean IN
         \* averages and covariances in thousandths of 20000 samples
         /\ \A i \in d : e.cov[i][i] = 0 \/ Sq(e.avg[i] - 1000 * e.mean[i]) <= 50 * e.cov[i][i] * 50 + 4
         /\ \A i \in d : e.cov[i][i] = 0 => e.avg[i] = 1000 * e.mean[i]
         /\ \A i, j \in d : Sq(e.got[i][j] - 1000 * e.cov[i][j]) <= 2500 * (e.cov[i][i] * e.cov[j][j] + Sq(e.cov[i][j])) + 4
         /\ \A i \in DOMAIN e.null : e.null[i] <= 1
         /\ \A i \in DOMAIN e.marg : \A k \in DOMAIN e.marg[i] : Believable(e.marg[i][k], Cum(8 * (k - 7)) \div 5000, 20000)
    [] e.op = "rot" -> /\ e.norm = 0 /\ Close(e.m1, E1) /\ Close(e.m2, E2) /\ Close(e.m3, E3)
                       /\ \A k \in 1..12 : Believable(e.angle[k] \div 2, AngleBelow[k + 1] \div 5, 20000)
                       \* quaternions of both signs alike; roll and yaw anywhere on the circle
                       /\ IF e.sphere THEN /\ \A i \in 1..4 : Abs(e.q1[i]) <= 175
                                          /\ \A i \in 1..16 : Abs(e.q2[i] - (IF (i - 1) \div 4 = (i - 1) % 4 THEN 2500 ELSE 0)) <= 90
                          ELSE \A i \in 1..8 : Believable(e.roll[i] \div 2, 2500, 20000) /\ Believable(e.yaw[i] \div 2, 2500, 20000)
    [] e.op = "raw" -> e.a = e.b
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
