-------------------------- MODULE T_PlannerHelpers --------------------------
EXTENDS PlannerHelpers, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Valid(p) == p >= 0 /\ p <= 64
OK(e) ==
  CASE e.op = "stype" -> IF Valid(e.p) THEN e.how = "ok" /\ Bernoulli(e.r, e.p, 1) ELSE e.how = "err"
    [] e.op = "sact" -> IF Valid(e.p) THEN e.how = "ok" /\ Bernoulli(e.r, e.p, 1 - e.act) ELSE e.how = "err"
    [] e.op = "tsamp" -> IF e.n > 0 THEN e.how = "ok" /\ Uniform(e.r, e.n) ELSE e.how = "err"
    [] e.op = "goals" -> IF Valid(e.bias) /\ e.G # <<>> THEN e.how = "ok" /\ GoalBiased(e.bias, e.G, e.us, e.r, e.d) ELSE e.how = "err"
    [] e.op = "near" -> IF e.vs # <<>> THEN e.how = "ok" /\ Nearest(e.vs, e.x, e.r) ELSE e.how = "err"
    [] e.op = "prop" -> IF e.step > 0 THEN e.how = "ok" /\ e.r = (IF e.con THEN Conn(e.blk, e.a, e.b, e.step, -1) ELSE Extend(e.blk, e.a, e.b, e.step)) ELSE e.how = "err"
    \* timeouts: not started; running; expired; restarted; bad arguments; the planner functions
    [] e.op = "time" -> e.r = <<2, 0, 0, 0, 0, 1, 1, 0, 1, 0, 2, 2, 2, 0, 0, 0, 0, 1, 0, 1, 0>> \/ e.r = <<2, 0, 0, 0, 0, 1, 1, 0, 1, 1, 2, 2, 2, 0, 0, 0, 0, 1, 0, 1, 0>>
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(OK(Ev[l]))
         \/ l > Len(Ev) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
