------------------------------- MODULE GenMaybe -------------------------------
\* every history of MaxLen operations on two optionals, failing copies included
EXTENDS Maybe, TLC, Json
CONSTANTS MaxLen, Alts
VARIABLES sl, h
Sl == {1, 2}
Init == sl = [i \in Sl |-> Absent] /\ h = <<>>
Op(op, s, d, x, f) == sl' \in Results(sl, op, s, d, x, f) /\ h' = Append(h, <<op, s, d, x[1], x[2], IF f THEN 1 ELSE 0>>)
X0 == <<"b", 0>>
There(i) == sl[i] # Absent
Next == /\ Len(h) < MaxLen
        /\ \E d \in Sl, f \in BOOLEAN :
             \/ ~There(d) /\ ~f /\ Alts = {"b"} /\ Op("mk", d, d, X0, f)
             \/ ~There(d) /\ \E a \in Alts : Op("mkv", d, d, <<a, Len(h) + 1>>, f)
             \/ ~There(d) /\ \E s \in Sl \ {d}, o \in {"cp", "mv"} : There(s) /\ (f => Holds(sl[s])) /\ Op(o, s, d, X0, f)
             \/ There(d) /\ \E s \in Sl, o \in {"asg", "masg"} : There(s) /\ (f => Holds(sl[s]) /\ s # d) /\ Op(o, s, d, X0, f)
             \/ There(d) /\ ~f /\ Alts = {"b"} /\ Op("reset", d, d, X0, f)
             \/ There(d) /\ ~f /\ Op("del", d, d, X0, f)
             \/ Holds(sl[d]) /\ ~f /\ Op("set", d, d, <<sl[d][1], Len(h) + 10>>, f)
Spec == Init /\ [][Next]_<<sl, h>>
Emit == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
