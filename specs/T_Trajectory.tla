----------------------------- MODULE T_Trajectory -----------------------------
(* Every trajectory has a lineage (copies share it). What a lineage answers for a time is
   settled by the first answer, whoever gave it; a new one asked only for that time is just
   another first answer. Positions and velocities are compared as recorded (all bits), those
   at the ends also with the path, in millionths. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l, of, said, dur
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Near(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : p[i] - q[i] <= tol /\ q[i] - p[i] <= tol
NoMotion(v) == \A i \in DOMAIN v : v[i] <= 2000 /\ v[i] >= -2000
Said(g, k) == {s \in said : s[1] = g /\ s[2] = k}
Step(e) ==
  CASE e.op = "make" -> e.st \in (IF e.must THEN {"ok"} ELSE {"ok", "err"})
    [] e.op = "duration" -> of[e.i] # 0 /\ (\A d \in dur : d[1] = of[e.i] => d[2] = e.v)
    [] e.op = "ask" ->
         /\ of[e.i] # 0
         /\ IF e.k < 0 THEN e.st = "err"
            ELSE /\ e.st = "ok" /\ e.time
                 /\ \A s \in Said(of[e.i], e.k) : s[3] = e.v
                 /\ (e.k = 0 => Near(e.pos, e.first, 2) /\ NoMotion(e.vel))
                 /\ (e.k = 4096 => Near(e.pos, e.last, 20) /\ NoMotion(e.vel))
    [] OTHER -> TRUE
OfAfter(e) == CASE e.op = "make" /\ e.st = "ok" -> [of EXCEPT ![e.i] = e.g]
                [] e.op = "make" -> [of EXCEPT ![e.i] = 0]
                [] e.op = "clone" -> [of EXCEPT ![e.j] = of[e.i]]
                [] e.op = "drop" -> [of EXCEPT ![e.i] = 0]
                [] OTHER -> of
SaidAfter(e) == IF e.op = "ask" /\ e.st = "ok" THEN said \cup {<<of[e.i], e.k, e.v>>} ELSE said
DurAfter(e) == IF e.op = "duration" THEN dur \cup {<<of[e.i], e.v>>} ELSE dur
TInit == c \in 1..Len(Cases) /\ l = 1 /\ of = [i \in 1..4 |-> 0] /\ said = {} /\ dur = {}
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ LET e == Ev[l] IN Is(Step(e)) /\ of' = OfAfter(e) /\ said' = SaidAfter(e) /\ dur' = DurAfter(e)
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, of, said, dur>>
TSpec == TInit /\ [][TNext]_<<c, l, of, said, dur>>
=============================================================================
