------------------------------ MODULE Printing ------------------------------
(* Text of nested values. A value is a record [k, v]: scalars "int", "byte", "bool", "str" and
   "dec" (eighths); collections "seq", "set", "map" of values in iteration order; "pair"; and the
   fixed-size Eigen types, whose numbers are in eighths. *)
EXTENDS Integers, Sequences, TLC
LOCAL Frac == <<"", ".125", ".25", ".375", ".5", ".625", ".75", ".875">>
Dec(n) == IF n < 0 THEN "-" \o ToString((-n) \div 8) \o Frac[((-n) % 8) + 1] ELSE ToString(n \div 8) \o Frac[(n % 8) + 1]
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Named(names, v) == Join([i \in DOMAIN v |-> names[i] \o ": " \o Dec(v[i])], " ")
RECURSIVE Text(_, _, _)
Text(x, delim, sep) ==
  LET Sub(y) == Text(y, delim, sep)
      In(o, cl) == IF x.v = <<>> THEN "" ELSE LET t == Join([i \in DOMAIN x.v |-> Sub(x.v[i])], sep) IN IF delim THEN o \o t \o cl ELSE t IN
  CASE x.k \in {"int", "byte"} -> ToString(x.v)
    [] x.k = "bool" -> IF x.v THEN "true" ELSE "false"
    [] x.k = "str" -> x.v
    [] x.k = "dec" -> Dec(x.v)
    [] x.k = "pair" -> LET t == Sub(x.v[1]) \o ": " \o Sub(x.v[2]) IN IF delim THEN "<" \o t \o ">" ELSE t
    [] x.k = "seq" -> In("[", "]")
    [] x.k = "set" -> In("(", ")")
    [] x.k = "map" -> In("{", "}")
    [] x.k \in {"Vector2d", "Vector3d", "Vector4d", "Quaterniond"} -> x.k \o ": <" \o Named(<<"x", "y", "z", "w">>, x.v) \o ">"
    [] x.k = "VectorXd" -> "VectorXd: <" \o Join([i \in DOMAIN x.v |-> Dec(x.v[i])], ", ") \o ">"
    [] x.k = "MatrixXd" -> "MatrixXd:\n[" \o Join([i \in DOMAIN x.v |-> Join([j \in DOMAIN x.v[i] |-> Dec(x.v[i][j])], ", ")], "\n") \o "]"
    [] x.k = "Isometry3d" -> "Isometry3d: <" \o Named(<<"x", "y", "z">>, SubSeq(x.v, 1, 3)) \o ">, <" \o Named(<<"x", "y", "z", "w">>, SubSeq(x.v, 4, 7)) \o ">"
=============================================================================
