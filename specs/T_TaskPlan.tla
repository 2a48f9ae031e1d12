------------------------------ MODULE T_TaskPlan ------------------------------
EXTENDS TaskPlan, TLC, Json, IOUtils
VARIABLES c, l, st, G, names
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == Cases[c]
Ev == K.ev
Is(b) == b = TRUE
M == [n |-> K.n, cand |-> K.cand, out |-> K.out, h |-> K.h, done |-> ToSet(K.done)]
V(S) == [k \in DOMAIN S |-> S[k][1]]        \* states are <<value, tag>>; tags tell equal ones apart
adm == AdmissibleH(M, G)
Plan(S, e) == PlanOK(M, G, adm, V(S), e.plan, e.cost)
Solvable(S) == S # <<>> /\ Best(G, V(S)) < INF
Limited == st.lim >= 0 /\ st.steps >= st.lim
Sub(f, v) == st' = [st EXCEPT ![f] = v]
ToNames(e) == names' = e.names
Do(e) ==
  CASE e.k = "reg" -> /\ UNCHANGED st
                      /\ IF \E k \in DOMAIN names : names[k] = e.name THEN e.how = "err" /\ names' = names
                         ELSE e.how = "ok" /\ names' = Append(names, e.name)
                      /\ names' = e.names
    [] e.k = "unreg" -> UNCHANGED st /\ names' = SelectSeq(names, LAMBDA x : x \notin ToSet(e.L)) /\ names' = e.names
    [] e.k = "clear" -> UNCHANGED st /\ names' = <<>> /\ names' = e.names
    \* planning only
    [] e.k = "plan" -> /\ UNCHANGED <<st, names>>
                       /\ IF e.S = <<>> THEN e.how = "err" ELSE e.how = "ok" /\ Is(Plan(e.S, e))
    [] e.k = "next" -> /\ UNCHANGED <<st, names>>
                       /\ IF ~Solvable(e.S) THEN e.how = "err"
                          ELSE e.how = "ok" /\ Is(Plan(e.S, e)) /\ e.sel \in 0..(Len(e.S) - 1) /\ e.S[e.sel + 1][1] = e.plan[1][1]
                               /\ e.prim = (IF Len(e.plan) = 1 THEN 0 ELSE e.plan[2][2])
    \* execution
    [] e.k = "go" -> st.pc = "idle" /\ st' = [pc |-> "out", cur |-> e.S, steps |-> 0, lim |-> e.lim, trace |-> <<>>, sel |-> <<>>, plan |-> <<>>, cost |-> 0] /\ UNCHANGED names
    [] e.k = "outcome" ->
         /\ st.pc = "out" /\ ~Limited /\ Is(Solvable(st.cur)) /\ e.S = st.cur /\ Is(Plan(st.cur, e))
         /\ e.sel \in 0..(Len(st.cur) - 1) /\ st.cur[e.sel + 1][1] = e.plan[1][1]
         /\ st' = [st EXCEPT !.pc = IF Len(e.plan) = 1 THEN "end" ELSE "pre", !.sel = st.cur[e.sel + 1], !.plan = e.plan,
                             !.trace = Append(@, st.cur[e.sel + 1]), !.cost = e.cost]
         /\ UNCHANGED names
    [] e.k = "pre" -> /\ st.pc = "pre" /\ e.s = st.sel /\ e.prim = st.plan[2][2] /\ e.plan = st.plan /\ e.cost = st.cost
                      /\ st' = [st EXCEPT !.pc = "exec"] /\ UNCHANGED names
    [] e.k = "exec" -> /\ st.pc = "exec" /\ e.prim = st.plan[2][2] /\ e.s = st.sel /\ Is(Cand(M, e.prim, e.s[1]))
                       /\ st' = [st EXCEPT !.pc = IF e.thrown THEN "fail" ELSE "post", !.cur = e.S, !.steps = @ + 1] /\ UNCHANGED names
    [] e.k = "post" -> st.pc = "post" /\ e.S = st.cur /\ Sub("pc", "out") /\ UNCHANGED names
    [] e.k = "end" -> /\ UNCHANGED names /\ Sub("pc", "idle")
                      /\ IF e.how = "ok" THEN /\ st.pc = "end" \/ (st.pc = "out" /\ Limited)
                                              /\ e.trace = st.trace
                                              /\ st.pc = "end" => e.trace[Len(e.trace)][1] \in M.done
                         ELSE e.how = "err" /\ (st.pc = "fail" \/ (st.pc = "out" /\ ~Limited /\ Is(~Solvable(st.cur))))
    \* execution without callbacks: only the primitives' calls and the answer are seen
    [] e.k = "quiet" -> st.pc = "idle" /\ st' = [pc |-> "qout", cur |-> e.S, steps |-> 0, lim |-> e.lim, trace |-> <<>>, sel |-> <<>>, plan |-> <<>>, cost |-> 0] /\ UNCHANGED names
    [] e.k = "qexec" ->
         /\ st.pc = "qout" /\ ~Limited /\ Is(Solvable(st.cur)) /\ Is(Cand(M, e.prim, e.s[1])) /\ e.s \in ToSet(st.cur)
         \* with a heuristic that does not overestimate the step taken begins a cheapest plan
         /\ Is(adm => /\ G[e.s[1]] = Best(G, V(st.cur))
                      /\ G[e.s[1]] = SMin({INF} \cup {Plus(M.out[e.prim][e.s[1] + 1][k][2], G[M.out[e.prim][e.s[1] + 1][k][1]]) : k \in DOMAIN M.out[e.prim][e.s[1] + 1]})
                         \/ e.s[1] \in M.done)
         /\ st' = [st EXCEPT !.pc = IF e.thrown THEN "fail" ELSE "qout", !.cur = e.S, !.steps = @ + 1, !.trace = Append(@, e.s)] /\ UNCHANGED names
    [] e.k = "qend" -> /\ UNCHANGED names /\ Sub("pc", "idle")
                       /\ IF e.how = "ok" THEN IF st.pc = "qout" /\ Limited THEN e.trace = st.trace
                                               ELSE /\ st.pc = "qout" /\ Is(Solvable(st.cur)) /\ Len(e.trace) = Len(st.trace) + 1
                                                    /\ SubSeq(e.trace, 1, Len(st.trace)) = st.trace
                                                    /\ e.trace[Len(e.trace)] \in ToSet(st.cur) /\ e.trace[Len(e.trace)][1] \in M.done
                          ELSE e.how = "err" /\ (st.pc = "fail" \/ (st.pc = "qout" /\ ~Limited /\ Is(~Solvable(st.cur))))
    [] OTHER -> FALSE
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ st = [pc |-> "idle"] /\ names = <<>>
         /\ G = ToGo(M, Edges(M))
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ G' = G /\ Do(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, st, G, names>>
TSpec == TInit /\ [][TNext]_<<c, l, st, G, names>>
=============================================================================
