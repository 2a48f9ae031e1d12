------------------------------ MODULE MCRRTPlan ------------------------------
(* Every run of the planner for all answers of the functions given to it.       *)
EXTENDS RRTPlan, TLC, Json
CONSTANTS Trees, MaxIter, Props, Samples, Emitting
VARIABLES s, h, n
\* initial trees: one root, a root with a child, two roots
Init0(k) == CASE k = 1 -> <<Node(1, -1)>> [] k = 2 -> Connect(Add(<<>>, 1), 2, 0) [] k = 3 -> Add(Add(<<>>, 1), 2)
\* propagations: values 5..; sequences of <<value, relative parent>>
P(k) == CASE k = 0 -> <<>> [] k = 1 -> <<<<5, -1>>>> [] k = 2 -> <<<<5, -1>>, <<6, 0>>>> [] k = 3 -> <<<<5, -1>>, <<6, -1>>>>
          [] k = 4 -> <<<<5, -1>>, <<6, 0>>, <<7, 0>>>> [] k = 5 -> <<<<5, -2>>, <<6, 1>>>> [] k = 6 -> <<<<5, 0>>>>
B == BOOLEAN
CONSTANT Edits
E(k, i) == CASE k = 0 -> NoEdit [] k = 1 -> <<1, 40, i>> [] k = 2 -> <<2, 41, 0>> [] k = 3 -> <<3, 42, 0>>
MInit == \E k \in Trees, sg \in B, a \in B, g \in B :
           s = Start(Init0(k), sg, a, g) /\ n = 0 /\ h = [tree |-> k, single |-> sg, hasA |-> a, hasG |-> g, it |-> <<>>, goal |-> <<>>]
Rec(f, x) == h' = IF Emitting THEN [h EXCEPT ![f] = Append(@, x)] ELSE h
Keep == h' = h
End == s.pc = "end"
MNext == \/ \E r \in B : s.pc \in {"init", "goal"} /\ s' = Goal(s, At(s.T, s.i).v, r) /\ Rec("goal", r) /\ n' = n
         \/ \E k \in Edits \ {1} : s.pc \in {"initcb", "goalcb"} /\ (k = 0 \/ Len(s.T) < 5) /\ s' = GoalCb(s, E(k, s.i)) /\ Keep /\ n' = n
         \/ \E r \in B : Looping(s) /\ ~Found(s) /\ (n = MaxIter => r) /\ s' = Term(s, r) /\ Keep /\ n' = n + 1
         \/ \E x \in Samples : s.pc = "samp" /\ s' = Samp(s, x) /\ Keep /\ n' = n
         \/ \E r \in -1..Len(s.T) : s.pc = "near" /\ s' = Near(s, r) /\ Rec("it", <<r>>) /\ n' = n
         \/ \E k \in Props : s.pc = "prop" /\ s' = Prop(s, P(k)) /\ Rec("it", P(k)) /\ n' = n
         \/ \E k \in Edits : s.pc = "added" /\ s' = Added(s, E(k, s.i)) /\ Keep /\ n' = n
         \/ (MayEnd(s) \/ MayFail(s)) /\ s' = [s EXCEPT !.pc = "end"] /\ Keep /\ n' = n
         \/ End /\ UNCHANGED <<s, h, n>>
MSpec == MInit /\ [][MNext]_<<s, h, n>>
TreeAlwaysLinked == Linked(s.T) /\ EndsAtRoot(s.T)
OnlyConnectedPaths == PathsConnect(s)
CountsAddUp == s.succ + s.fail <= s.tot /\ s.tot <= s.succ + s.fail + 1
SingleStopsAtFirst == s.single /\ s.pc = "samp" => s.goals = <<>>
OnlyGrows == [][Grown(s, s')]_s
Emit == End => PrintT(ToJson(h))
=============================================================================
