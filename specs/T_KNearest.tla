----------------------------- MODULE T_KNearest -----------------------------
EXTENDS KNearest, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Step(e) == e.op = "query" /\ Answer(Cases[c].d, e.lo, e.hi, e.K, e.how, e.ix, e.ds)
TInit == /\ c \in 1..Len(Cases) /\ l = 1
         /\ d = <<>> /\ lo = 0 /\ hi = 0 /\ k = 0 /\ part = {} /\ todo = {} /\ pool = {} /\ answer = {} /\ pc = "trace"
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ UNCHANGED vars /\ Step(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<vars, c, l>>
TSpec == TInit /\ [][TNext]_<<vars, c, l>>
=============================================================================
