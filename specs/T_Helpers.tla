------------------------------ MODULE T_Helpers ------------------------------
(* Recorded calls of the helpers. Each event is one call, or one step of a history of a
   future ("f..."), whose state is kept. *)
EXTENDS Helpers, Json, IOUtils, TLC
VARIABLES c, l, fut
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Signs(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Ok(e) == e.st = "ok"
\* limbs, highest first
RECURSIVE NotAbove(_, _)
NotAbove(p, q) == p = <<>> \/ Head(p) < Head(q) \/ (Head(p) = Head(q) /\ NotAbove(Tail(p), Tail(q)))
Step(e) ==
  CASE e.op = "subset" -> e.r = Subset(e.s, e.t)
    [] e.op = "equal" -> e.r = SameItems(e.s, e.t)
    [] e.op = "get" -> e.r = IF \E i \in DOMAIN e.m : e.m[i][1] = e.k THEN LastOf(e.m, e.k) ELSE e.d
    [] e.op = "keys" -> /\ Elems(e.r) = {p[1] : p \in MapOf(e.m)} /\ Distinct(e.r) /\ (e.sorted => Sorted(e.r))
    [] e.op = "set" -> /\ Elems(e.r) = Elems(e.s) /\ Distinct(e.r) /\ (e.sorted => Sorted(e.r))
    [] e.op = "pairs" -> /\ Elems(e.r) = MapOf(e.m) /\ Distinct(e.r) /\ (e.sorted => Rising(e.r))
    [] e.op = "make" -> Elems(e.r) = MapOf(e.m) /\ Distinct(e.r)
    [] e.op = "zip" -> IF Len(e.k) = Len(e.v) THEN Ok(e) /\ Elems(e.r) = MapOf([i \in DOMAIN e.k |-> <<e.k[i], e.v[i]>>]) /\ Distinct(e.r)
                       ELSE e.st = "err"
    [] e.op = "clamp" -> IF e.lo > e.hi THEN e.st = "err"
                         ELSE Ok(e) /\ e.r = Clamp(e.x, e.lo, e.hi) /\ e.r2 = e.r /\ e.logs = IF e.r = e.x THEN 0 ELSE 1
    [] e.op = "spread" -> IF e.lo > e.mid \/ e.mid > e.hi THEN e.st = "err"
                          ELSE Ok(e) /\ e.r = Spread(e.x, e.lo, e.mid, e.hi) /\ e.r2 = e.r /\ (e.r # e.x => e.logs = 1)
                               /\ (e.x < e.lo \/ e.x > e.hi => e.logs = 0)
    [] e.op = "bits" -> e.r = BitSet(e.w, e.p, e.b) /\ e.was = e.w[e.p + 1] /\ e.now = e.b
    [] e.op = "find" -> e.r = \A i \in DOMAIN e.s : Contains(e.s[i], e.t)
    [] e.op = "index" -> IF e.n < 1 THEN e.st = "err" ELSE Ok(e) /\ e.r = Share(e.k, e.m, e.n) /\ e.draws = 1
    [] e.op = "range" -> IF e.from > e.to THEN e.st = "err"
                         ELSE Ok(e) /\ e.r = e.from + Share(e.k, e.m, e.to - e.from + 1) /\ e.draws = 1
    [] e.op = "wide" -> Ok(e) /\ NotAbove(e.from, e.r) /\ NotAbove(e.r, e.to) /\ (e.u = 0 => e.r = e.from) /\ (e.full /\ e.u = 8 => e.r = e.to)
                        /\ (e.half /\ e.u = 4 => e.r = e.mid)
    [] e.op = "wides" -> \A i \in 1..(Len(e.r) - 1) : NotAbove(e.r[i], e.r[i + 1])
    [] e.op = "align" -> e.r = (e.at % e.a = 0) /\ e.r2 = e.r /\ e.req = (IF e.r THEN "ok" ELSE "err")
    [] e.op = "hash" -> e.once = e.steps /\ e.once = e.again
    [] e.op = "hashes" -> Distinct(e.r)
    [] e.op = "hashed" -> e.same
    [] e.op = "fready" -> e.r = (fut = "done")
    [] OTHER -> TRUE
FutAfter(e) == CASE e.op = "fnew" -> "waiting" [] e.op = "fset" -> "done" [] e.op = "flater" -> "later" [] e.op = "fdone" -> "done" [] OTHER -> fut
TInit == c \in 1..Len(Cases) /\ l = 1 /\ fut = "none"
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ LET e == Ev[l] IN Is(Step(e)) /\ fut' = FutAfter(e)
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, fut>>
TSpec == TInit /\ [][TNext]_<<c, l, fut>>
=============================================================================
