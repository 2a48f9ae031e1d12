------------------------------- MODULE T_Rigid -------------------------------
EXTENDS Rigid, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Pose(q, p) == Top(Rot(q), p, N2(q))
K(k) == IF k < 0 THEN 0 ELSE IF k > 8 THEN 8 ELSE k
Zero(a) == \A i \in DOMAIN a : a[i] = 0
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Cands == {<<a, b, x, y>> : a \in -1..1, b \in -1..1, x \in -1..1, y \in -1..1} \ {<<0, 0, 0, 0>>}
\* how well a candidate agrees with the rotations (norms 1, 2 or 4), times 4 and its norm
Agree(k, qs, w) == Sum([i \in DOMAIN qs |-> w[i] * Dot4(k, qs[i]) * Dot4(k, qs[i]) * (4 \div N2(qs[i]))])
Best(s, qs, w) == \A k \in Cands : 100000 * Agree(k, qs, w) <= (s + 4) * 4 * N2(k)
QAvg(e) ==
  LET n == Len(e.qs)
      bad == n = 0 \/ (Len(e.w) # 0 /\ Len(e.w) # n)
      w == IF Len(e.w) = 0 THEN [i \in 1..n |-> 1] ELSE [i \in DOMAIN e.w |-> Abs(e.w[i])]
      w2 == [i \in DOMAIN w |-> w[i] * w[i]] IN
  IF bad THEN e.st = "err" /\ e.st2 = "err"
  ELSE IF Zero(w) THEN (n = 1 => e.st = "err") /\ e.st2 = "err"
  ELSE /\ e.st = "ok" /\ e.st2 = "ok" /\ Near(e.unit, 1000000, 2)
       /\ (Best(e.s1, e.qs, w) \/ Best(e.s2, e.qs, w2))
       /\ (Best(e.x1, e.qs, w) \/ Best(e.x2, e.qs, w2))
       /\ e.shift = [j \in 1..3 |-> Sum([i \in 1..n |-> w[i] * e.ps[i][j]])]
Slerp(e) ==
  LET k == K(e.k) IN
  /\ e.cos = Cos(e.q1, e.q2) /\ Near(e.unit, 1000000, 2) /\ Near(e.tunit, 0, 2) /\ Near(e.det, 1000000, 2)
  /\ Near(8 * e.before, k * e.all, 50) /\ Near(8 * e.after, (8 - k) * e.all, 50)
  /\ Near(8 * e.tbefore, k * e.all, 50) /\ Near(8 * e.tafter, (8 - k) * e.all, 50)
  /\ e.shift = [j \in 1..3 |-> e.p1[j] * (8 - k) + e.p2[j] * k]
Step(e) ==
  CASE e.op = "skew" -> e.k = Skew(e.a) /\ e.u = e.a
    [] e.op = "unskew" -> e.u = Unskew2(<< <<e.a[1], e.a[2], e.a[3]>>, <<e.a[4], e.a[5], e.a[6]>>, <<e.a[7], e.a[8], e.a[9]>> >>)
    [] e.op = "hat" -> e.h = Hat(e.a) /\ e.u = e.a
    [] e.op = "adjoint" -> e.ad = Adjoint(Rot(e.q), e.p) /\ e.w = App6(Adjoint(Rot(e.q), e.p), e.a)
    [] e.op = "expm" -> IF e.k \in {4, -4} THEN e.st = "ok" /\ e.r = (IF e.k = 4 THEN Rot(e.q) ELSE Trans3(Rot(e.q))) ELSE e.st = "err"
    [] e.op = "twist" -> /\ e.small /\ e.cos = Cos(e.q1, e.q2) /\ e.one = Pose(e.q2, e.p2) /\ e.two = e.one /\ e.four = e.one
                         /\ e.back = Pose(e.q1, e.p1) /\ e.none = e.back
                         /\ \A i \in DOMAIN e.rates : e.rates[i] = e.one
    [] e.op = "tiny" -> /\ {e.one, e.many, e.back, e.turn} \subseteq 0..100
                        /\ Near(e.dist, e.angle, 1)
    [] e.op = "slide" -> e.r = Top(<< <<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 4>> >>, ScaleV(e.a, e.k), 1)
    [] e.op = "dist" -> LET d == Minus(e.p1, e.p2) IN
                        /\ e.in /\ e.cos = Cos(e.q1, e.q2) /\ Near(e.rot, e.sym, 1) /\ e.shift = d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
                        /\ Near(e.s1, e.rot, 1) /\ Near(8 * e.mix, (8 - K(e.k)) * e.s0 + K(e.k) * e.s1, 50)
    [] e.op = "slerp" -> Slerp(e)
    [] e.op = "qavg" -> QAvg(e)
    [] e.op = "rpy" -> LET r == Rpy(e.as[1], e.as[2], e.as[3])
                           u == Urdf(e.as[1], e.as[2], e.as[3])
                           h == e.as[1][3] * e.as[2][3] * e.as[3][3] IN
                       /\ e.q = r /\ e.u = u
                       /\ \A i \in 1..3 : e.qt[i] = Top(r, e.p, h) /\ e.ut[i] = Top(u, e.p, h)
    [] e.op = "euler" -> e.n = 6 /\ e.rt = Pose(e.q, e.p) /\ \A i \in 1..3 : e.r[i] = Rot(e.q)
    [] e.op = "vecs" -> LET n == Len(e.a) IN
         /\ e.s3 = (IF n = 3 THEN "ok" ELSE "err") /\ e.sq = (IF n = 4 THEN "ok" ELSE "err") /\ e.s6 = (IF n = 6 THEN "ok" ELSE "err") /\ e.s6u = e.s6
         /\ e.x = e.a /\ e.bx = e.a /\ (n = 3 => e.r3 = e.a) /\ e.b3 = e.r3
         /\ (n = 4 => e.wxyz = <<e.a[4], e.a[1], e.a[2], e.a[3]>> /\ e.bq = e.a)
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
