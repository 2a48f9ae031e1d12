------------------------------ MODULE BiRRTPlan ------------------------------
(* The two-tree planner as a state machine over the answers of the functions    *)
(* given to it. T[1] is the start tree, T[2] the goal tree; act is 0 or 1.      *)
EXTENDS PlannerTree
Start(A, B, single, hasA, hasB) ==
  [pc |-> IF A = <<>> \/ B = <<>> THEN "bad" ELSE "init", T |-> <<A, B>>, act |-> 0, i |-> 0, j |-> 0, pend |-> <<>>, new |-> <<>>,
   x |-> 0, tgt |-> -1, near |-> 0, br |-> <<>>, tot |-> 0, succ |-> 0, fail |-> 0, it |-> <<0, 0>>, swaps |-> 0,
   single |-> single, hasA |-> hasA, hasB |-> hasB]
Act(s) == s.T[s.act + 1]
Tgt(s) == s.T[2 - s.act]
AddNext(s) ==
  IF s.pend = <<>> THEN [s EXCEPT !.pc = "sact"]
  ELSE LET rel == s.pend[1][2]
           par == IF rel < 0 THEN s.near ELSE IF rel < Len(s.new) THEN s.new[rel + 1] ELSE -1
           t2 == [s EXCEPT !.T = [@ EXCEPT ![s.act + 1] = Connect(Act(s), s.pend[1][1], par)], !.pend = Tail(s.pend),
                           !.new = Append(s.new, Len(Act(s))), !.i = Len(Act(s))]
       IN IF rel >= Len(s.new) THEN [s EXCEPT !.pc = "bad"]
          ELSE [t2 EXCEPT !.pc = IF s.hasA THEN "added" ELSE IF s.tgt >= 0 THEN "conn" ELSE "next"]
\* states added without callback and without connection test take no further call
RECURSIVE Settle(_)
Settle(s) == IF s.pc = "next" THEN Settle(AddNext(s)) ELSE s
AfterInit(s) == IF s.j + 1 < Len(s.T[2]) THEN [s EXCEPT !.j = s.j + 1, !.pc = "init"]
                ELSE IF s.i + 1 < Len(s.T[1]) THEN [s EXCEPT !.i = s.i + 1, !.j = 0, !.pc = "init"] ELSE [s EXCEPT !.pc = "loop"]
ConnEn(s, u, w, a) == \/ s.pc = "init" /\ u = At(s.T[1], s.i).v /\ w = At(s.T[2], s.j).v /\ a = s.act
                      \/ s.pc = "conn" /\ u = At(Act(s), s.i).v /\ w = At(Tgt(s), s.tgt).v /\ a = s.act
\* the pair of nodes just found connected: start tree index, goal tree index
Pair(s) == IF s.pc = "init" THEN <<s.i, s.j>> ELSE IF s.act = 0 THEN <<s.i, s.tgt>> ELSE <<s.tgt, s.i>>
Conn(s, r) == LET s2 == IF r THEN [s EXCEPT !.br = Append(@, Pair(s))] ELSE s
              IN IF r /\ s.hasB THEN [s2 EXCEPT !.pc = IF s.pc = "init" THEN "initcb" ELSE "bridge"]
                 ELSE IF s.pc = "init" THEN AfterInit(s2) ELSE Settle(AddNext(s2))
BridgeEn(s, i, j, a) == s.pc \in {"initcb", "bridge"} /\ s.br[Len(s.br)] = <<i, j>> /\ a = s.act
\* a callback may change the new state and add states of its own to the trees it is given
Bridge(s, e, f) == IF s.pc = "initcb" THEN AfterInit(s) ELSE Settle(AddNext([s EXCEPT !.T = <<Edited(s.T[1], e), Edited(s.T[2], f)>>]))
Found(s) == s.single /\ s.br # <<>>
TermEn(s, n, m) == s.pc = "loop" /\ n = Len(s.T[1]) /\ m = Len(s.T[2])
Term(s, r) == [s EXCEPT !.pc = IF r \/ Found(s) THEN "done" ELSE "stype"]
StypeEn(s, a) == s.pc = "stype" /\ a = s.act
Stype(s, r) == [s EXCEPT !.pc = IF r THEN "tsamp" ELSE "samp", !.tgt = -1, !.it = [@ EXCEPT ![s.act + 1] = @ + 1]]
TsampEn(s, a) == s.pc = "tsamp" /\ a = s.act
Tsamp(s, r) == IF r \in Idx(Tgt(s)) THEN [s EXCEPT !.pc = "near", !.tgt = r, !.x = At(Tgt(s), r).v, !.tot = @ + 1] ELSE [s EXCEPT !.pc = "bad"]
SampEn(s) == s.pc = "samp"
Samp(s, x) == [s EXCEPT !.pc = "near", !.x = x, !.tot = @ + 1]
NearEn(s, x, a) == s.pc = "near" /\ x = s.x /\ a = s.act
Near(s, r) == IF r \in Idx(Act(s)) THEN [s EXCEPT !.pc = "prop", !.near = r] ELSE [s EXCEPT !.pc = IF r < 0 THEN "stop" ELSE "bad"]
PropEn(s, v, x, a) == s.pc = "prop" /\ v = At(Act(s), s.near).v /\ x = s.x /\ a = s.act
Prop(s, P) == IF P = <<>> THEN [s EXCEPT !.pc = "sact", !.fail = @ + 1]
              ELSE Settle(AddNext([s EXCEPT !.pend = P, !.new = <<>>, !.succ = @ + 1]))
AddedEn(s, i, a) == s.pc = "added" /\ i = s.i /\ a = s.act
Added(s, e) == LET t == [s EXCEPT !.T = [@ EXCEPT ![s.act + 1] = Edited(@, e)]]
               IN IF s.tgt >= 0 THEN [t EXCEPT !.pc = "conn"] ELSE Settle(AddNext(t))
SactEn(s, a) == s.pc = "sact" /\ a = s.act
Sact(s, r) == [s EXCEPT !.pc = "loop", !.act = r, !.swaps = @ + (IF r # s.act THEN 1 ELSE 0)]
MayEnd(s) == s.pc \in {"done", "stop"} \/ (s.pc = "loop" /\ Found(s))
MayFail(s) == s.pc \in {"bad", "stop"}
Join(s, b) == PathTo(s.T[1], b[1]) \o Rev(PathTo(s.T[2], b[2]))
Solutions(s) == [k \in DOMAIN s.br |-> Join(s, s.br[k])]
Count(Q, x) == Cardinality({k \in DOMAIN Q : Q[k] = x})
SameBag(P, Q) == Len(P) = Len(Q) /\ \A k \in DOMAIN P : Count(P, P[k]) = Count(Q, P[k])
PathsOK(s, P) == IF s.single THEN IF s.br = <<>> THEN P = <<>> ELSE Len(P) = 1 /\ \E k \in DOMAIN s.br : P[1] = Solutions(s)[k]
                 ELSE SameBag(P, Solutions(s))
Stats(s) == <<s.tot, s.succ, s.fail, Len(s.T[1]) + Len(s.T[2]), Len(s.br), s.it[1], s.it[2], s.swaps>>
\* ---- properties of the design
Grown(S, T) == Len(S) <= Len(T) /\ \A i \in Idx(S) : At(S, i).p = At(T, i).p /\ At(S, i).ch \subseteq At(T, i).ch
OnlyActiveGrows(s, t) == Grown(s.T[1], t.T[1]) /\ Grown(s.T[2], t.T[2]) /\ (s.pc # "bridge" => s.T[2 - s.act] = t.T[2 - s.act])
BranchesOK(s) == \A k \in DOMAIN s.br : s.br[k][1] \in Idx(s.T[1]) /\ s.br[k][2] \in Idx(s.T[2])
                   /\ LET p == Chain(s.T[1], s.br[k][1]) q == Chain(s.T[2], s.br[k][2]) IN p[Len(p)] \in Roots(s.T[1]) /\ q[Len(q)] \in Roots(s.T[2])
=============================================================================
