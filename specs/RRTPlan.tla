------------------------------- MODULE RRTPlan -------------------------------
(* The single-tree planner as a state machine over the answers of the functions *)
(* given to it. st is the planner's state; each operator below is one call the  *)
(* planner makes, with the answer it got.                                       *)
EXTENDS PlannerTree
NoState == [pc |-> "none"]
Start(T, single, hasA, hasG) ==
  [pc |-> IF T = <<>> THEN "bad" ELSE "init", T |-> T, i |-> 0, pend |-> <<>>, new |-> <<>>, x |-> 0, near |-> 0, goals |-> <<>>,
   n0 |-> Len(T), tot |-> 0, succ |-> 0, fail |-> 0, single |-> single, hasA |-> hasA, hasG |-> hasG]
\* the states still to be put in the tree, one at a time
AddNext(s) ==
  IF s.pend = <<>> THEN [s EXCEPT !.pc = "loop"]
  ELSE LET rel == s.pend[1][2]
           par == IF rel < 0 THEN s.near ELSE IF rel < Len(s.new) THEN s.new[rel + 1] ELSE -1
       IN IF rel >= Len(s.new) THEN [s EXCEPT !.pc = "bad"]      \* parent not yet in the tree
          ELSE [s EXCEPT !.T = Connect(s.T, s.pend[1][1], par), !.pend = Tail(s.pend), !.new = Append(s.new, Len(s.T)),
                         !.i = Len(s.T), !.pc = IF s.hasA THEN "added" ELSE "goal"]
AfterInit(s) == IF s.i + 1 < Len(s.T) THEN [s EXCEPT !.i = s.i + 1, !.pc = "init"] ELSE [s EXCEPT !.pc = "loop"]
\* goal test of a state
GoalEn(s, v) == s.pc \in {"init", "goal"} /\ v = At(s.T, s.i).v
Goal(s, v, r) ==
  LET s2 == IF r THEN [s EXCEPT !.goals = Append(s.goals, s.i)] ELSE s
  IN IF r /\ s.hasG THEN [s2 EXCEPT !.pc = IF s.pc = "init" THEN "initcb" ELSE "goalcb"]
     ELSE IF s.pc = "init" THEN AfterInit(s2) ELSE AddNext(s2)
GoalCbEn(s, i) == s.pc \in {"initcb", "goalcb"} /\ i = s.i
\* a callback may change the new state and add states of its own to the tree it is given
GoalCb(s, e) == LET t == [s EXCEPT !.T = Edited(@, e)] IN IF s.pc = "initcb" THEN AfterInit(t) ELSE AddNext(t)
\* single-path planning is over once there is a goal
Found(s) == s.single /\ s.goals # <<>>
\* states which callbacks added during the first look at the tree may or may not be looked at
Looping(s) == s.pc = "loop" \/ (s.pc = "init" /\ s.i >= s.n0)
TermEn(s, k) == Looping(s) /\ k = Len(s.T)
Term(s, r) == [s EXCEPT !.pc = IF r \/ Found(s) THEN "done" ELSE "samp"]
SampEn(s) == s.pc = "samp"
Samp(s, x) == [s EXCEPT !.pc = "near", !.x = x, !.tot = s.tot + 1]
NearEn(s, x) == s.pc = "near" /\ x = s.x
\* a negative answer ends the planning, one that is no node is refused
Near(s, r) == IF r \in Idx(s.T) THEN [s EXCEPT !.pc = "prop", !.near = r] ELSE [s EXCEPT !.pc = IF r < 0 THEN "stop" ELSE "bad"]
PropEn(s, v, x) == s.pc = "prop" /\ v = At(s.T, s.near).v /\ x = s.x
Prop(s, P) == IF P = <<>> THEN [s EXCEPT !.pc = "loop", !.fail = s.fail + 1]
              ELSE AddNext([s EXCEPT !.pend = P, !.new = <<>>, !.succ = s.succ + 1])
AddedEn(s, i) == s.pc = "added" /\ i = s.i
Added(s, e) == [s EXCEPT !.pc = "goal", !.T = Edited(@, e)]
MayEnd(s) == s.pc \in {"done", "stop"} \/ (Looping(s) /\ Found(s))
MayFail(s) == s.pc \in {"bad", "stop"}
Solutions(s) == [k \in DOMAIN s.goals |-> PathTo(s.T, s.goals[k])]
Count(Q, x) == Cardinality({k \in DOMAIN Q : Q[k] = x})
SameBag(P, Q) == Len(P) = Len(Q) /\ \A k \in DOMAIN P : Count(P, P[k]) = Count(Q, P[k])
PathsOK(s, P) == IF s.single THEN IF s.goals = <<>> THEN P = <<>> ELSE Len(P) = 1 /\ \E k \in DOMAIN s.goals : P[1] = Solutions(s)[k]
                 ELSE SameBag(P, Solutions(s))
Stats(s) == <<s.tot, s.succ, s.fail, Len(s.T), Len(s.goals)>>
\* ---- properties of the design
Grown(s, t) == Len(s.T) <= Len(t.T) /\ \A i \in Idx(s.T) : (s.pc # "added" => At(s.T, i).v = At(t.T, i).v) /\ At(s.T, i).p = At(t.T, i).p /\ At(s.T, i).ch \subseteq At(t.T, i).ch
EdgesOf(T) == {<<At(T, i).p, i>> : i \in Idx(T)}
PathsConnect(s) == \A k \in DOMAIN s.goals : LET q == Rev(Chain(s.T, s.goals[k]))
                                            IN q[1] \in Roots(s.T) /\ q[Len(q)] = s.goals[k] /\ \A j \in 1..(Len(q) - 1) : <<q[j], q[j + 1]>> \in EdgesOf(s.T)
=============================================================================
