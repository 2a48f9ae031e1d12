--------------------------- MODULE T_ParallelLoop ---------------------------
(* Trace specification: each case recorded from the real loops must be a    *)
(* behaviour of ParallelLoop.                                               *)
EXTENDS ParallelLoop, Sequences, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev

\* numbers of 64 bits as three digits
Before(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
\* pieces in order cover from lo to hi without gap or overlap
Covers(all, l0, h0) == LET r == SelectSeq(all, LAMBDA q : q[1] # q[2]) IN
  IF l0 = h0 THEN r = <<>>
  ELSE /\ r # <<>> /\ r[1][1] = l0 /\ r[Len(r)][2] = h0
       /\ \A k \in DOMAIN r : Before(r[k][1], r[k][2])
       /\ \A k \in 1..(Len(r) - 1) : r[k][2] = r[k + 1][1]
Adjacent(q) == q[2] = q[3] /\ ~Before(q[2], q[1]) /\ ~Before(q[4], q[3])

Step(e) ==
  CASE e.op = "call"  -> Call(e.lo, e.hi, e.deg)
    [] e.op = "start" -> Start(e.a, e.b, e.t)
    [] e.op = "fin"   -> Finish(e.a, e.b, e.t)
    [] e.op = "fail"  -> Fail(e.a, e.b, e.t)
    [] e.op = "ret"   -> Return /\ (On("C01") => e.vis = Cardinality(Range(lo, hi)))
    [] e.op = "raise" -> Raise(e.x)
    [] e.op = "end"   -> End
    [] e.op = "bad"   -> Refuse(e.lo, e.hi, e.deg) /\ (On("C01") => e.how = "err" /\ e.ran = 0)
    [] e.op = "huge"  -> e.how = "ok" /\ e.tn /\ Covers(e.r, e.lo, e.hi) /\ UNCHANGED vars
    [] e.op = "share" -> e.how = "ok" /\ e.ends = <<e.lo, e.hi>> /\ (\A k \in DOMAIN e.adj : Adjacent(e.adj[k])) /\ UNCHANGED vars
    [] OTHER -> FALSE

TInit == c \in 1..Len(Cases) /\ l = 1 /\ InitLoop
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Step(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<vars, c, l>>
TSpec == TInit /\ [][TNext]_<<vars, c, l>>
=============================================================================
