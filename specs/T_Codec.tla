------------------------------- MODULE T_Codec -------------------------------
EXTENDS Codec, Json, IOUtils
VARIABLES c, l, buf
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Upto(n) == SubSeq(buf, 1, n)
Poked(b, at, s) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(s) THEN s[i - at] ELSE b[i]]
ReadAs(e, b) == LET d == Dec(e.ty, b, e.at) IN
  IF d.ok THEN e.st = "ok" /\ e.n = d.at - e.at /\ Same(e.ty, d.v, e.v) ELSE e.st = "err"
Step(e) ==
  CASE e.op = "ser" -> /\ e.n = Len(e.buf) - Len(buf) /\ e.n > 0
                       /\ SubSeq(e.buf, 1, Len(buf)) = buf
                       /\ LET d == Dec(e.ty, e.buf, Len(buf)) IN d.ok /\ d.at = Len(e.buf) /\ Same(e.ty, e.v, d.v)
    [] e.op = "de" -> ReadAs(e, buf)
    [] e.op = "cuts" -> /\ \A i \in DOMAIN e.sts : LET d == Dec(e.ty, Upto(e.from + i - 1), e.at) IN e.sts[i] = IF d.ok THEN "ok" ELSE "err"
                       
    [] e.op = "poke" -> e.buf = Poked(buf, e.at, <<e.v>>)
    [] e.op = "inp" -> /\ IF e.at + Len(e.v) <= Len(buf)
                          THEN e.st = "ok" /\ e.n = Len(e.v) /\ e.buf = Poked(buf, e.at, e.v)
                          ELSE e.st = "err" /\ e.buf = buf
    \* a result that holds nothing says so and gives nothing
    [] e.op = "empty" -> e.has = FALSE /\ e.sts = <<"err", "err", "err", "err">>
    \* many items: the same bytes per item, read back equal, and any shorter piece refused
    [] e.op = "big" -> /\ e.st = "ok" /\ e.same /\ e.wrote = e.head + e.n * e.per /\ e.size = e.wrote /\ e.read = e.wrote
                       /\ \A i \in DOMAIN e.cut : e.cut[i] = "err"
TInit == c \in 1..Len(Cases) /\ l = 1 /\ buf = <<>>
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
            /\ buf' = IF Ev[l].op \in {"ser", "poke", "inp"} THEN Ev[l].buf ELSE buf
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, buf>>
TSpec == TInit /\ [][TNext]_<<c, l, buf>>
=============================================================================
