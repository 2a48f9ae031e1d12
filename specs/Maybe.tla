-------------------------------- MODULE Maybe --------------------------------
(* Optional and tagged values. A slot is absent (no optional there), empty, or holds
   <<alternative, value>>. After a failed assignment the target may have kept or lost
   what it held; a moved-from value is any value. *)
EXTENDS Integers, Sequences, FiniteSets
Absent == <<"x">>
Empty == <<"e">>
Holds(x) == Len(x) = 2
Gone == -1
Moved(x) == IF Holds(x) THEN {x, <<x[1], Gone>>} ELSE {x}
Holders(sl) == {i \in DOMAIN sl : Holds(sl[i])}
Upd(sl, d, x) == [sl EXCEPT ![d] = x]
\* all slots an operation may leave behind, given whether it ended with an exception
Results(sl, op, s, d, x, failed) ==
  CASE op = "mk"  -> IF failed THEN {} ELSE {Upd(sl, d, Empty)}
    [] op = "mkv" -> {IF failed THEN sl ELSE Upd(sl, d, x)}
    [] op = "cp"  -> {IF failed THEN sl ELSE Upd(sl, d, sl[s])}
    [] op = "mv"  -> {Upd(IF failed THEN sl ELSE Upd(sl, d, sl[s]), s, y) : y \in Moved(sl[s])}
    [] op = "asg" -> IF failed THEN IF s = d THEN {} ELSE {sl, Upd(sl, d, Empty)} ELSE {Upd(sl, d, sl[s])}
    [] op = "masg" -> IF s = d THEN IF failed THEN {} ELSE {sl}
                      ELSE UNION {{Upd(t, s, y) : y \in Moved(sl[s])} : t \in IF failed THEN {sl, Upd(sl, d, Empty)} ELSE {Upd(sl, d, sl[s])}}
    [] op = "reset" -> IF failed THEN {} ELSE {Upd(sl, d, Empty)}
    [] op = "del" -> IF failed THEN {} ELSE {Upd(sl, d, Absent)}
    [] op = "set" -> IF failed THEN {} ELSE {Upd(sl, d, <<sl[d][1], x[2]>>)}
=============================================================================
