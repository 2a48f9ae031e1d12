------------------------------ MODULE T_Vectors ------------------------------
EXTENDS Vectors, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
NaN == -1000000001
SSq(v) == [i \in DOMAIN v |-> SignSq(v[i])]
Near(a, b, th) == 2 * Abs(a - b) <= Abs(th)
Second(v) == [i \in DOMAIN v |-> -2 * v[i] + 1]
RECURSIVE Normals(_)
Normals(n) == IF n = 0 THEN {<<>>} ELSE {Append(m, x) : m \in Normals(n - 1), x \in -2..2}
Bin(e) ==
  IF Len(e.a) # Len(e.b) THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ ~e.neg
       /\ CASE e.f = "mul" -> e.r = Times(e.a, e.b)
            [] e.f = "div" -> e.r = [i \in DOMAIN e.a |-> IF e.b[i] = 0 THEN NaN ELSE e.a[i]]
            [] e.f = "add" -> e.r = Plus(e.a, e.b)
            [] e.f = "sub" -> e.r = Minus(e.a, e.b)
            [] OTHER -> e.d = SqDist(e.a, e.b)
Step(e) ==
  CASE e.op = "un" -> /\ e.sq = Sq(e.a) /\ e.norm = Sq(e.a) /\ e.abs = [i \in DOMAIN e.a |-> Abs(e.a[i])]
                      /\ e.mul = Scale(e.a, e.k) /\ e.div = e.a /\ e.sum = Sum(e.a)
                      /\ e.add = [i \in DOMAIN e.a |-> e.a[i] + e.k] /\ e.sub = [i \in DOMAIN e.a |-> e.a[i] - e.k]
    [] e.op = "bin" -> Bin(e)
    [] e.op = "fixed" ->
         LET a2 == Head_(e.a, 2)
             b2 == Head_(e.b, 2)
             a3 == Head_(e.a, 3)
             b3 == Head_(e.b, 3) IN
         /\ e.eq3 = (a3 = b3) /\ e.eq4 = (e.a = e.b)
         /\ e.near3 = (\A i \in 1..3 : Near(a3[i], b3[i], e.th)) /\ e.near1 = Near(e.a[1], e.b[1], e.th)
         /\ e.sq2 = SqDist(a2, b2) /\ e.d2 = e.sq2 /\ e.sq3 = SqDist(a3, b3) /\ e.d3 = e.sq3
         /\ <<e.i1>> = Interp(<<e.a[1]>>, <<e.b[1]>>, e.k) /\ e.i3 = Interp(a3, b3, e.k) /\ e.i4 = Interp(e.a, e.b, e.k)
    [] e.op = "interp" -> IF Len(e.a) # Len(e.b) THEN e.st = "err" /\ e.stx = "err"
                          ELSE e.st = "ok" /\ e.stx = "ok" /\ e.r = Interp(e.a, e.b, e.k) /\ e.x = e.r
    [] e.op = "linear" -> e.r = Cell(e.lo, e.size, e.val, e.q) /\ e.x = <<e.r, Cell(e.lo, e.size, Second(e.val), e.q)>>
    [] e.op = "avg" -> IF ~CanAverage(e.items, e.w) THEN e.st = "err"
                       ELSE e.st = "ok" /\ e.r = Average(e.items, e.w, CASE e.f = "1" -> 1 [] e.f = "3" -> 3 [] e.f = "4" -> 4 [] OTHER -> Len(e.items[1]))
    [] e.op = "dev" -> IF e.a = <<>> THEN e.st = "err" /\ e.st2 = "err"
                       ELSE /\ e.st = "ok" /\ e.st2 = "ok"
                            /\ e.d = (IF Len(e.a) = 1 THEN 0 ELSE Sum([i \in DOMAIN e.a |-> (e.a[i] - e.mean) * (e.a[i] - e.mean)]))
                            /\ e.d2 = Len(e.a) * Sq(e.a) - Sum(e.a) * Sum(e.a)
    [] e.op = "wdot" ->
         /\ e.dot = WDot(e.a, e.b, e.w) /\ e.sq = WDot(e.a, e.a, e.w) /\ e.norm = e.sq
         /\ IF WDot(e.a, e.a, e.w) = 0 \/ WDot(e.b, e.b, e.w) = 0 THEN e.st = "err" /\ e.st2 = "err"
            ELSE e.st = "ok" /\ e.st2 = "ok" /\ e.in /\ e.cos = SignSq(e.dot) /\ e.angle = e.cos
    [] e.op = "clamp" -> /\ ~e.over /\ e.r = e.r2
                         /\ IF Sq(e.a) <= e.max * e.max THEN e.same /\ e.r = Scale(SSq(e.a), Sq(e.a)) ELSE e.r = Scale(SSq(e.a), e.max * e.max)
    [] e.op = "proj" -> e.p = Proj(e.b, e.v) /\ e.q = Rej(e.b, e.v)
    [] e.op = "ortho" -> IF e.b = <<>> \/ (Len(e.b) = 1 /\ ~Zero(e.b)) THEN e.st = "err"
                         ELSE e.st = "ok" /\ e.n = Len(e.b) /\ e.some /\ e.cos = 0
    [] e.op = "inplane" -> IF e.v = <<>> \/ Len(e.a) # Len(e.v) \/ Len(e.b) # Len(e.v) THEN e.st = "err"
                           ELSE IF Parallel(e.a, e.b) THEN e.st = "err"
                           ELSE e.st = "ok" /\ e.some /\ e.cos = 0 /\ (Len(e.v) = 3 /\ Det3(e.a, e.b, e.v) = 0 => e.off = 0)
    [] e.op = "plane" ->
         IF Len(e.o) # Len(e.n) THEN e.st = "err"
         ELSE LET d == Minus(e.p, e.o)
                  raw == Dot(e.n, d)
                  n2 == Max1(Sq(e.n)) IN
              /\ e.st = "ok" /\ e.dim = Len(e.o) /\ e.origin = e.o /\ e.normal = e.n
              /\ e.raw = raw /\ e.normed = SignSq(raw) /\ e.sq = raw * raw /\ e.dist = raw * raw
              /\ e.pv = Rej(e.n, e.p) /\ e.rv = Proj(e.n, e.p) /\ e.pp = Plus(Scale(e.o, n2), Rej(e.n, d))
    [] e.op = "fit" ->
         IF e.pts = <<>> THEN e.st = "err"
         ELSE LET dim == Len(e.pts[1])
                  n == Len(e.pts) IN
              /\ e.st = "ok" /\ e.dim = dim /\ Abs(e.unit - 1000000) <= 2
              /\ e.centre = [k \in 1..dim |-> Sum([i \in DOMAIN e.pts |-> e.pts[i][k]])]
              /\ \A m \in Normals(dim) : Zero(m) \/ e.sum * n * n * Sq(m) <= 1000 * Spread(e.pts, m) + n * n * Sq(m)
    [] e.op = "table" ->
         /\ e.st = "ok"
         /\ IF e.kind \in {0, 2} THEN e.rows = Len(e.a) /\ e.cols = Len(e.a) /\ e.r = [i \in DOMAIN e.a |-> [j \in DOMAIN e.a |-> Abs(e.a[i] - e.a[j])]]
            ELSE e.rows = Len(e.a) /\ e.cols = Len(e.b) /\ e.r = [i \in DOMAIN e.a |-> [j \in DOMAIN e.b |-> 10 * e.a[i] + e.b[j]]]
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
