----------------------------- MODULE MCScopeExit -----------------------------
\* all programs of up to MaxLen operations; h is the program, ran how often each action ran
EXTENDS ScopeExit, TLC, Json, FiniteSets
CONSTANTS MaxLen, MaxDepth
VARIABLES S, h, ran, made, off
vars == <<S, h, ran, made, off>>
Init == S = Start(7) /\ h = <<>> /\ ran = [i \in 1..MaxLen |-> 0] /\ made = {} /\ off = {}
Op(op, x) == /\ S.mode = "run" /\ S' = Do(S, op, x) /\ h' = Append(h, <<op, x>>) /\ UNCHANGED ran
             /\ made' = IF op = "g" THEN made \cup {x} ELSE made
             /\ off' = IF op = "d" THEN off \cup {x} ELSE off
More == Len(h) < MaxLen
Next == \/ /\ More
           /\ \/ Op("g", Len(h) + 1)
              \/ \E i \in Ids(S) : Enabled(S, i) /\ Op("d", i)
              \/ \E n \in {0, 2, 3} : Op("n", n)
              \/ Op("null", 0) \/ Op("t", 0)
              \/ Cardinality({i \in DOMAIN S.st : S.st[i][1] = "{"}) < MaxDepth /\ \E k \in {0, 1} : Op("{", k)
              \/ InBlock(S) /\ Op("}", 0)
        \/ Len(h) = MaxLen /\ Op("end", 0)
        \/ /\ S.mode \in {"close", "unwind", "end"} /\ S' = Run(S) /\ ran' = [ran EXCEPT ![Top(S)[2]] = @ + 1] /\ UNCHANGED <<h, made, off>>
Spec == Init /\ [][Next]_vars
\* an action is still registered, or was disabled, or ran once - exactly one of these
ExactlyOnce == \A i \in made : LET here == i \in Ids(S) IN ran[i] = IF here \/ i \in off THEN 0 ELSE 1
NotDisabled == \A i \in off : ran[i] = 0
Restored == S.st = <<>> => S.n = 7
\* the setting is the innermost change still in force
Innermost == LET ns == {k \in DOMAIN S.st : S.st[k][1] = "n"} IN ns = {} => S.n = 7
Emit == S.mode = "over" => PrintT(ToJson(h))
=============================================================================
