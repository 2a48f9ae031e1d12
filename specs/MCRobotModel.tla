---------------------------- MODULE MCRobotModel ----------------------------
(* Models are moved, copied and asked; an answer about the current position is the answer for
   the last position set, whatever happened to copies. *)
EXTENDS RobotModel, TLC, Json
CONSTANTS MaxLen, Vals
VARIABLES pos, last, h
vars == <<pos, last, h>>
W == <<1, 3>>
Cfg == {<<a, b>> : a \in Vals, b \in Vals}
Init == pos = <<(<<0, 0>>), (<<0, 0>>)>> /\ last = <<>> /\ h = <<>>
Set(m, x) == pos' = [pos EXCEPT ![m] = x] /\ last' = <<>> /\ h' = Append(h, <<"set", m, x>>)
Clone(m) == pos' = [pos EXCEPT ![3 - m] = pos[m]] /\ last' = <<>> /\ h' = Append(h, <<"clone", m, <<0, 0>>>>)
Ask(m, x) == last' = <<m, x, Signed(W, pos[m], x), Each(W, pos[m], x), Distance(W, pos[m], x)>> /\ h' = Append(h, <<"ask", m, x>>) /\ UNCHANGED pos
Next == Len(h) < MaxLen /\ \E m \in {1, 2} : Clone(m) \/ \E x \in Cfg : Set(m, x) \/ Ask(m, x)
Spec == Init /\ [][Next]_vars
RECURSIVE Held(_, _)
\* the position of model m after the history, from the history alone
Held(m, k) == IF k = 0 THEN <<0, 0>> ELSE LET o == h[k] IN
  IF o[1] = "set" /\ o[2] = m THEN o[3] ELSE IF o[1] = "clone" /\ o[2] = 3 - m THEN Held(3 - m, k - 1) ELSE Held(m, k - 1)
Follows == \A m \in {1, 2} : pos[m] = Held(m, Len(h))
\* distances are never negative, nothing only at the position itself, and signs tell the side
Sides == last # <<>> => /\ last[5] >= 0 /\ (last[5] = 0 <=> last[2] = pos[last[1]])
                        /\ \A i \in 1..2 : (last[3][i] > 0 <=> last[2][i] > pos[last[1]][i]) /\ last[4][i] \in {last[3][i], -last[3][i]} /\ last[4][i] >= 0
Emit == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
