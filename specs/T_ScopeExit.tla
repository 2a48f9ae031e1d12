----------------------------- MODULE T_ScopeExit -----------------------------
EXTENDS ScopeExit, Json, IOUtils
VARIABLES c, l, S
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Min(a, b) == IF a < b THEN a ELSE b
\* What the questions about threads answer while the setting is n: no parallel region
\* outside of one, and inside one a team of that size (fewer only under a limit or with
\* dynamic adjustment) whose members are numbered from zero.
Answers(e) ==
  LET most == Min(S.n, Cases[c].lim) m == Len(e.in) IN
  /\ e.built
  /\ e.out = <<0, 0, 1, S.n>> /\ e.most = S.n /\ e.lim = Cases[c].lim
  /\ m >= 1 /\ (IF Cases[c].dyn THEN m <= most ELSE m = most)
  /\ (IF Cases[c].dyn THEN e.team \in 1..most /\ e.degree \in 1..most ELSE e.team = most /\ e.degree = most)
  /\ \A k \in 1..m : e.in[k] = <<k - 1, m, IF m > 1 THEN 1 ELSE 0, S.n>>
\* a build without OpenMP always has one thread
Plain(e) == /\ ~e.built /\ e.out = <<0, 0, 1, 1>> /\ e.most = 1 /\ e.lim = 1 /\ e.team = 1 /\ e.degree = 1
            /\ Len(e.in) >= 1 /\ \A k \in DOMAIN e.in : e.in[k] = <<0, 1, 0, 1>>
\* the setting is recorded before the operation is carried out
Step(e) ==
  /\ e.n = IF Cases[c].omp THEN S.n ELSE 1
  /\ IF e.op = "run" THEN MayRun(S, e.x)
     ELSE IF e.op = "over" THEN S.mode = "over"
     ELSE /\ S.mode = "run"
          /\ CASE e.op = "q" -> e.r = IF Enabled(S, e.x) THEN 1 ELSE 0
               [] e.op = "par" -> e.r = 0     \* refused inside a parallel region
               [] e.op = "ask" -> IF Cases[c].omp THEN Answers(e) ELSE Plain(e)
               [] e.op = "d" -> e.x \in Ids(S)
               [] e.op \in {"g", "null", "n", "{", "}", "t", "end"} -> TRUE
               [] OTHER -> FALSE
After(e) == IF e.op = "run" THEN Run(S) ELSE IF e.op = "over" THEN S ELSE Do(S, e.op, e.x)
TInit == c \in 1..Len(Cases) /\ l = 1 /\ S = Start(Cases[c].n0)
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l])) /\ S' = After(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, S>>
TSpec == TInit /\ [][TNext]_<<c, l, S>>
=============================================================================
