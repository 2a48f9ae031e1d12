------------------------------ MODULE MCTaskPlan ------------------------------
(* Execution of every small task: choose an outcome with the cheapest remaining  *)
(* plan, run its first primitive, take whatever comes, plan again.               *)
EXTENDS TaskPlan, TLC, Json
CONSTANTS Unexpected, MaxSteps, Limits, Emitting
VARIABLES M, G, cur, pc, steps, trace, lim, sel, todo, met, h
n == 3
Outs == {<<>>, <<0>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Entry(o, c) == [k \in DOMAIN o |-> <<o[k], c + k>>]
Models == {[n |-> 3, done |-> {2}, h |-> <<0, 0, 0>>,
            cand |-> <<<<IF a # <<>> THEN 1 ELSE 0, IF b # <<>> THEN 1 ELSE 0, 0>>, <<IF c # <<>> THEN 1 ELSE 0, IF d # <<>> THEN 1 ELSE 0, 0>>>>,
            out |-> <<<<Entry(a, 0), Entry(b, 0), <<>>>>, <<Entry(c, 1), Entry(d, 1), <<>>>>>>] :
            a \in Outs, b \in Outs, c \in Outs, d \in Outs}
Obs == {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 0>>, <<1, 2>>}
R(x) == h' = IF Emitting THEN Append(h, x) ELSE h
vars == <<M, G, cur, pc, steps, trace, lim, sel, todo, met, h>>
MInit == /\ M \in Models /\ G = ToGo(M, Edges(M)) /\ cur \in {<<0>>, <<1, 0>>} /\ pc = "plan" /\ steps = 0
         /\ trace = <<>> /\ lim \in {IF x = 9 THEN -1 ELSE x : x \in Limits} /\ sel = 0 /\ todo = 0 /\ met = FALSE
         /\ h = IF Emitting THEN <<M.out, cur, lim>> ELSE <<>>
Bests == {k \in DOMAIN cur : G[cur[k]] = Best(G, cur)}
\* primitives that begin a cheapest plan
First(s) == {p \in Prims(M) : Cand(M, p, s) /\ \E k \in DOMAIN M.out[p][s + 1] : Plus(M.out[p][s + 1][k][2], G[M.out[p][s + 1][k][1]]) = G[s]}
MNext ==
  \/ /\ pc = "plan" /\ lim >= 0 /\ steps >= lim /\ pc' = "limit" /\ UNCHANGED <<M, G, cur, steps, trace, lim, sel, todo, met, h>>
  \/ /\ pc = "plan" /\ (lim < 0 \/ steps < lim)
     /\ IF Best(G, cur) >= INF THEN pc' = "stuck" /\ UNCHANGED <<sel, trace, todo>>
        ELSE \E k \in Bests : /\ sel' = cur[k] /\ trace' = Append(trace, cur[k])
                              /\ IF cur[k] \in M.done THEN pc' = "done" /\ todo' = 0
                                 ELSE pc' = "exec" /\ todo' \in First(cur[k])
     /\ UNCHANGED <<M, G, cur, steps, lim, met, h>>
  \/ /\ pc = "exec" /\ steps < MaxSteps
     /\ \E o \in Obs : /\ ~Unexpected => \E k \in DOMAIN o : Plus(SMin({INF} \cup StepCosts(M, sel, o[k], todo)), G[o[k]]) = G[sel]
                       /\ cur' = o /\ R(o)
     /\ steps' = steps + 1 /\ pc' = "plan" /\ UNCHANGED <<M, G, trace, lim, sel, todo, met>>
  \/ /\ pc \in {"done", "stuck", "limit"} \/ (pc = "exec" /\ steps = MaxSteps)
     /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_vars
OnlyCandidates == pc = "exec" => Cand(M, todo, sel)
SuccessMeetsTask == pc = "done" => trace[Len(trace)] \in M.done
NoMoreThanAllowed == lim >= 0 => steps <= lim
TraceLength == pc \in {"done", "exec"} => Len(trace) = steps + 1
\* without surprises the remaining cost falls at every step, so the task gets done
Progress == [][pc = "plan" /\ pc' \in {"exec", "done"} /\ steps > 0 /\ ~Unexpected => G[sel'] < G[sel]]_vars
NeverStuckIfExpected == ~Unexpected /\ pc = "stuck" => steps = 0
Emit == pc \in {"done", "stuck", "limit"} \/ (pc = "exec" /\ steps = MaxSteps) => PrintT(ToJson(h))
=============================================================================
