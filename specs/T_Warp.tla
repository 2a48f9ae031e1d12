-------------------------------- MODULE T_Warp --------------------------------
EXTENDS Warp, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Refused(e) == e.n = 0 \/ e.m = 0 \/ e.rows # e.n \/ e.cols # e.m
Step(e) == IF Refused(e) THEN e.st = "err"
           ELSE e.st = "ok" /\ e.out = (IF e.op = "warp" THEN Cost(e.T) ELSE Hausdorff(e.T))
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
