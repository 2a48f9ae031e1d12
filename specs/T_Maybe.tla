------------------------------- MODULE T_Maybe -------------------------------
EXTENDS Maybe, Json, IOUtils
VARIABLES c, l, sl, obj
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Ref == Cases[c].kind = "r"
Is(b) == b = TRUE
\* an optional that refers to an object: moving from it may empty it
RefResults(s0, e) ==
  CASE e.op \in {"mv", "masg"} /\ e.s # e.d -> {Upd(Upd(s0, e.d, s0[e.s]), e.s, y) : y \in {s0[e.s], Empty}}
    [] e.op \in {"masg"} -> {s0}
    [] e.op = "set" -> {s0}
    [] OTHER -> Results(s0, e.op, e.s, e.d, e.x, FALSE)
\* a slot that does not support the operation is left alone by the driver
Fits(e) == CASE e.op \in {"mk", "mkv"} -> sl[e.d] = Absent
             [] e.op \in {"cp", "mv"} -> sl[e.d] = Absent /\ sl[e.s] # Absent
             [] e.op \in {"asg", "masg"} -> sl[e.d] # Absent /\ sl[e.s] # Absent
             [] e.op = "set" -> Holds(sl[e.d])
             [] OTHER -> sl[e.d] # Absent
ObjAfter(e) == CASE ~Ref -> obj
                 [] e.op = "oset" -> [obj EXCEPT ![e.d] = e.x[2]]
                 [] e.op = "set" /\ Fits(e) -> [obj EXCEPT ![sl[e.d][2]] = e.x[2]]
                 [] OTHER -> obj
Step(e) ==
  /\ IF e.op = "oset" \/ e.st = "skip" THEN e.view = sl /\ (e.st = "skip" => ~Fits(e))
     ELSE /\ Fits(e) /\ (e.st = "err" => e.armed)  /\ e.st \in {"ok", "err"}
          /\ e.view \in IF Ref THEN RefResults(sl, e) ELSE Results(sl, e.op, e.s, e.d, e.x, e.st = "err")
  /\ e.bad = 0
  /\ IF Ref THEN /\ e.objs = ObjAfter(e) /\ e.st # "err"
                 /\ e.reads = [i \in DOMAIN e.view |-> IF Holds(e.view[i]) THEN e.objs[e.view[i][2]] ELSE -5]
     ELSE e.live = Cardinality(Holders(e.view))
TInit == c \in 1..Len(Cases) /\ l = 1 /\ sl = [i \in 1..3 |-> Absent] /\ obj = <<0, 0, 0>>
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l])) /\ sl' = Ev[l].view /\ obj' = ObjAfter(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, sl, obj>>
TSpec == TInit /\ [][TNext]_<<c, l, sl, obj>>
=============================================================================
