----------------------------- MODULE T_PathShort -----------------------------
EXTENDS PathShort, FiniteSets, Functions, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Valid(e) == {<<e.checks[i][1], e.checks[i][2]>> : i \in {k \in DOMAIN e.checks : e.checks[k][3]}}
Checked(e) == {<<e.checks[i][1], e.checks[i][2]>> : i \in DOMAIN e.checks}
TolOf(e) == IF e.rs > 0 THEN 2 ELSE 0
\* each new connection of the result was itself found valid
Strict(e, p, q) == \A j \in Joins(q) : j \in Joins(p) \/ j \in Valid(e)
Spaced(e, p, q) == e.rs > 0 => \A j \in Joins(q) : j \in Joins(p) \/ Dist(j[1], j[2]) <= e.rs + 2
Step(e) ==
  CASE e.op = "smooth" ->
         LET V == Valid(e) R == Smooth(V, e.path, e, 0, 0, e.us) IN
         /\ e.st = "ok" /\ Shortened(e.path, V, e.out, TolOf(e))
         /\ e.draws <= 2 * e.iters
         /\ (e.iters = 0 \/ e.fails = 0 => e.out = e.path /\ e.checks = <<>>)
         /\ (e.marg => Strict(e, e.path, e.out)) /\ Spaced(e, e.path, e.out)
         /\ (e.rs = 0 => e.out = R.p /\ e.draws = 2 * R.it)
         /\ (e.bt = 0 /\ e.rs = 0 => Len(e.checks) - Cardinality({k \in DOMAIN e.checks : e.checks[k][3]}) <= e.fails)
    [] e.op = "att" ->
         LET V == Valid(e) sub == IF e.s < e.e THEN SubSeq(e.path, e.s + 1, e.e + 1) ELSE <<>> IN
         IF e.s >= e.e THEN e.st = "err"
         ELSE /\ e.st = "ok"
              /\ (e.rs = 0 => e.out = Attempt(V, e.path, e.s + 1, e.e + 1, e.bt))
              /\ IF e.out = <<>> THEN <<e.path[e.s + 1], e.path[e.e + 1]>> \in Checked(e) /\ (<<e.path[e.s + 1], e.path[e.e + 1]>> \in V => e.marg)
                 ELSE V # {} /\ Shortened(sub, V, e.out, TolOf(e)) /\ (e.marg => Strict(e, sub, e.out)) /\ Spaced(e, sub, e.out)
    [] e.op = "resample" -> IF Len(e.path) > 1 /\ e.rs <= 0 THEN e.st = "err" ELSE e.st = "ok" /\ Resampled(e.path, e.out, e.rs, 2)
    \* a path along a line whose distances are multiples of the resolution: equal steps, all waypoints met
    [] e.op = "long" -> LET d(k) == Dist(e.path[k], e.path[k + 1]) \div e.rs
                            steps == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [k \in 1..(Len(e.path) - 1) |-> d(k)], 1..(Len(e.path) - 1))
                        IN /\ e.st = "ok" /\ e.n = 1 + steps /\ e.first = e.path[1] /\ e.last = e.path[Len(e.path)]
                           /\ (steps > 0 => e.lo = e.rs /\ e.hi = e.rs) /\ e.off = 0 /\ e.met = Len(e.path)
    [] e.op = "free" -> \* the share of the connections before the first one that is not valid
         LET n == Len(e.path) IN
         /\ e.st = "ok"
         /\ CASE n = 0 -> e.share = 1 /\ e.of = 1
              [] n = 1 -> e.of = 1 /\ e.share = IF <<e.path[1], e.path[1]>> \in Valid(e) THEN 1 ELSE 0
              [] OTHER -> e.of = n - 1 /\ e.share = Free(Valid(e), e.path)
         /\ (n >= 1 => e.checks # <<>>)
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
