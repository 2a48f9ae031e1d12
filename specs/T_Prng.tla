-------------------------------- MODULE T_Prng --------------------------------
EXTENDS Prng, Json, IOUtils, TLC
VARIABLES c, l, gs
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Step(e, d) == CASE e.op = "draw" -> e.v = d.v
             [] e.op = "limits" -> e.min = Zero /\ e.max = W(65535, 65535, 65535, 65535)
             [] e.op = "far" -> Len(e.at_once) = 20 /\ e.at_once = e.in_parts
             [] OTHER -> TRUE
After(e, d) == CASE e.op = "draw" -> [gs EXCEPT ![e.i] = d.g]
              [] e.op = "skip" -> [gs EXCEPT ![e.i] = Skip(gs[e.i], e.n)]
              [] e.op \in {"seed", "make"} -> [gs EXCEPT ![e.i] = Seeded(e.kind, e.seed)]
              [] e.op \in {"copy", "move"} -> [gs EXCEPT ![e.i] = gs[e.j]]
              [] OTHER -> gs
TInit == c \in 1..Len(Cases) /\ l = 1 /\ gs = [i \in 1..3 |-> Seeded("split", Zero)]
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ LET e == Ev[l] d == IF e.op = "draw" THEN Draws(gs[e.i], Len(e.v), <<>>) ELSE <<>> IN Is(Step(e, d)) /\ gs' = After(e, d)
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, gs>>
TSpec == TInit /\ [][TNext]_<<c, l, gs>>
=============================================================================
