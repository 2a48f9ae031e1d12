------------------------------- MODULE T_Color -------------------------------
EXTENDS Color, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l, ch
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Set(S) == {S[i] : i \in DOMAIN S}
\* the four channels an argument list stands for: h bytes, then floats; alpha full when missing
Chan(e) == [i \in 1..4 |-> IF i > Len(e.a) THEN Full ELSE IF i <= e.h THEN FromHex(e.a[i]) ELSE FromFloat(e.a[i])]
After(e) ==
  CASE e.op = "make" -> Chan(e)
    [] e.op = "zero" -> <<0, 0, 0, 0>>
    [] e.op = "set" -> [ch EXCEPT ![e.i] = FromFloat(e.x)]
    [] e.op = "sethex" -> [ch EXCEPT ![e.i] = FromHex(e.x)]
    [] OTHER -> ch
Step(e) ==
  /\ (e.op \in {"make", "zero", "set", "sethex"} => LET n == After(e) IN e.v = n /\ e.get = n /\ e.hex = [i \in 1..4 |-> ToHex(n[i])])
  /\ CASE e.op \in {"make", "zero", "set", "sethex"} -> TRUE
       [] e.op = "conv" -> e.v = [i \in 1..4 |-> FromFloat(e.a[i])]
       [] e.op = "equal" -> e.r = Equal(e.a, e.b, e.tol)
       [] e.op = "warm" -> e.v = Warm(e.k, e.n)
       [] e.op = "unique" -> /\ \A i \in DOMAIN e.v : e.v[i][4] = (IF i = 1 THEN 0 ELSE FromFloat(e.alpha))
                             /\ e.v[1] = <<Full, Full, Full, 0>> /\ \A i \in 22..Len(e.v) : e.v[i] = <<0, 0, 0, FromFloat(e.alpha)>>
                             /\ Cardinality({SubSeq(e.v[i], 1, 3) : i \in 1..22}) = 22
       [] e.op = "bytes" -> \A i \in DOMAIN e.v : e.v[i] = FromHex(i - 1) /\ e.b[i] = i - 1
       [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ ch = <<0, 0, 0, 0>>
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l])) /\ ch' = After(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, ch>>
TSpec == TInit /\ [][TNext]_<<c, l, ch>>
=============================================================================
