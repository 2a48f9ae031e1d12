------------------------------ MODULE T_Atomics ------------------------------
(* Recorded histories of copyable atomics: of one thread ("s": each operation answers at
   once; a cell moved from holds an unknown value until it is next looked at) and of several
   (starts, ends and results, in the order they happened). *)
EXTENDS Atomics, Json, IOUtils, TLC
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[c]
Ev == Case.ev
Is(b) == b = TRUE
Unknown == 100000
W(x) == Wrap(x, Case.lo, Case.n)
Knows(i, r) == st[i] = r \/ (st[i] = Unknown /\ Wrap(r, Case.lo, Case.n) = r)
Alone(e) == CASE e.op \in {"load", "add", "sub"} -> Knows(e.i, e.r)
              [] OTHER -> TRUE
AloneAfter(e) ==
  CASE e.op = "new" -> [st EXCEPT ![e.i] = W(e.v)]
    [] e.op = "def" -> [st EXCEPT ![e.i] = 0]
    [] e.op = "load" -> [st EXCEPT ![e.i] = e.r]
    [] e.op = "store" -> [st EXCEPT ![e.i] = W(e.v)]
    [] e.op = "add" -> [st EXCEPT ![e.i] = W(e.r + e.v)]
    [] e.op = "sub" -> [st EXCEPT ![e.i] = W(e.r - e.v)]
    [] e.op \in {"cctor", "cassign"} -> [st EXCEPT ![e.j] = st[e.i]]
    [] e.op = "mctor" -> [st EXCEPT ![e.j] = st[e.i], ![e.i] = Unknown]
    [] e.op = "massign" -> IF e.i = e.j THEN st ELSE [st EXCEPT ![e.j] = st[e.i], ![e.i] = Unknown]
After(e) ==
  CASE Case.mode = "s" -> AloneAfter(e)
    [] e.op = "reset" -> {World(e.vals, Case.threads)}
    [] e.op = "ret" -> Ended(st, e.t, e.r)
    [] e.op = "end" -> {w \in st : w.v = e.vals}
    [] OTHER -> Started(st, e.t, e.op, e.i, e.j, e.v, Case.lo, Case.n)
Step(e) == IF Case.mode = "s" THEN Alone(e) ELSE After(e) # {}
TInit == c \in 1..Len(Cases) /\ l = 1 /\ st = IF Case.mode = "s" THEN [i \in 1..4 |-> 0] ELSE {}
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ LET e == Ev[l] IN Is(Step(e)) /\ st' = After(e)
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, st>>
TSpec == TInit /\ [][TNext]_<<c, l, st>>
=============================================================================
