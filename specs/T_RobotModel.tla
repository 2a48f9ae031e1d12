---------------------------- MODULE T_RobotModel ----------------------------
EXTENDS RobotModel, Json, IOUtils, TLC
VARIABLES c, l, pos
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
W == Cases[c].w
Is(b) == b = TRUE
Zeros == [i \in DOMAIN W |-> 0]
Step(e) ==
  CASE e.op = "set" -> e.got = e.x /\ e.at = e.x
    [] e.op = "clone" -> e.at = pos[e.m]
    [] e.op = "ask" -> /\ e.at = pos[e.m]
                       /\ e.signedTo = Signed(W, pos[e.m], e.x) /\ e.eachTo = Each(W, pos[e.m], e.x) /\ e.distTo = Distance(W, pos[e.m], e.x)
                       /\ e.each = Each(W, e.y, e.x) /\ e.signed = Signed(W, e.y, e.x) /\ e.dist = Distance(W, e.y, e.x)
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ pos = [m \in {1, 2} |-> Zeros]
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
            /\ pos' = LET e == Ev[l] IN IF e.op = "set" THEN [pos EXCEPT ![e.m] = e.x] ELSE IF e.op = "clone" THEN [pos EXCEPT ![3 - e.m] = pos[e.m]] ELSE pos
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, pos>>
TSpec == TInit /\ [][TNext]_<<c, l, pos>>
=============================================================================
