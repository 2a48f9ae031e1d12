----------------------------- MODULE T_Messages -----------------------------
EXTENDS Messages, Json, IOUtils, TLC
VARIABLES c, l, at, was, val
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
\* the driver scales all rotations of a value by the norm of the last one
Scale(as) == IF as = <<>> \/ Len(as[1]) < 7 THEN 1 ELSE LET a == as[Len(as)] IN N2(<<a[1], a[2], a[3], a[4]>>)
Step(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "ask" -> at \in From(e.f)
    [] e.op = "to" -> /\ e.v = Holds(e.f, was, val, Scale(val)) /\ e.frame = Ev[l - 1].frame /\ e.child = Ev[l - 1].child
    [] e.op = "stamp" -> e.after = e.ids /\ e.stamps = [i \in DOMAIN e.ids |-> e.t]
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ at = "" /\ was = "" /\ val = <<>>
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l]))
            /\ val' = (IF Ev[l].op = "new" THEN Ev[l].a ELSE val)
            /\ at' = (IF Ev[l].op \in {"new", "to"} THEN Ev[l].f ELSE at)
            /\ was' = (IF Ev[l].op = "ask" THEN at ELSE was)
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, at, was, val>>
TSpec == TInit /\ [][TNext]_<<c, l, at, was, val>>
=============================================================================
