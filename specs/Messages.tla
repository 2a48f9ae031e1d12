------------------------------ MODULE Messages ------------------------------
(* Forms a value can have on either side of the message boundary, which form can be had from
   which, and what each form of a value holds. *)
EXTENDS Rigid
From(f) == CASE f = "pt" -> {"v3", "v4", "ptst"} [] f = "vec" -> {"v3", "v4"} [] f = "ptst" -> {"v3"} [] f \in {"v3", "v4"} -> {"pt", "vec"}
             [] f = "q" -> {"qm"} [] f = "qm" -> {"q"}
             [] f = "iso" -> {"pose", "tf"} [] f = "pose" -> {"iso", "posest"} [] f = "tf" -> {"iso", "tfst"} [] f \in {"posest", "tfst"} -> {"iso"}
             [] f = "m3x" -> {"pts"} [] f = "pts" -> {"m3x", "vv3"} [] f = "vv3" -> {"pts", "vecs"} [] f = "vecs" -> {}
             [] f = "isos" -> {"poses", "tfs"} [] f \in {"poses", "tfs"} -> {"isos"}
Forms == {"v3", "v4", "pt", "vec", "ptst", "q", "qm", "iso", "pose", "tf", "posest", "tfst", "m3x", "pts", "vv3", "vecs", "isos", "poses", "tfs"}
Lists == {"m3x", "pts", "vv3", "vecs", "isos", "poses", "tfs"}
Posed == {"iso", "pose", "tf", "posest", "tfst", "isos", "poses", "tfs"}
First3(a) == <<a[1], a[2], a[3]>>
\* what one value a, of coordinates or of a quaternion and a translation, holds in form f, come from form g
\* (scale: the rotation matrix is times the squared norm n)
One(f, g, a, n) ==
  CASE f = "v4" -> Append(First3(a), IF g = "pt" THEN 1 ELSE 0)
    [] f \in {"q", "qm"} -> a
    [] f \in Posed -> LET q == <<a[1], a[2], a[3], a[4]>>
                          m == Top(Rot(q), <<a[5], a[6], a[7]>>, N2(q)) IN
                      [i \in 1..3 |-> [j \in 1..4 |-> (m[i][j] * n) \div N2(q)]]
    [] OTHER -> First3(a)
Holds(f, g, as, n) == IF f \in Lists THEN [i \in DOMAIN as |-> One(f, g, as[i], n)] ELSE One(f, g, as[1], n)
=============================================================================
