----------------------------- MODULE MCMessages -----------------------------
(* A value is passed through chains of conversions, each written field by field from the form
   before it. Whatever the chain, the form reached holds what was put in. *)
EXTENDS Messages, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLES orig, form, prev, val, chain
vars == <<orig, form, prev, val, chain>>
Group == {q \in {<<a, b, x, y>> : a \in -1..1, b \in -1..1, x \in -1..1, y \in -1..1} : N2(q) \in {1, 2, 4}}
Points == {<<x, y, z, w>> : x \in {1, 4}, y \in {2}, z \in {-3, 0}, w \in {0, 1, 9}}
Poses == {q \o <<1, -2, 3>> : q \in Group}
Starts == {[f |-> f, a |-> <<a>>] : f \in {"v3", "v4", "pt", "vec", "q", "qm"}, a \in Points} \cup {[f |-> f, a |-> <<a>>] : f \in {"iso", "pose", "tf"}, a \in Poses}
     \cup {[f |-> f, a |-> a] : f \in {"m3x", "pts", "vv3", "vecs"}, a \in {<<>>, <<<<1, 2, 3, 0>>>>, <<<<1, 2, 3, 0>>, <<4, 5, 6, 0>>>>}}
     \cup {[f |-> f, a |-> a] : f \in {"isos", "poses", "tfs"}, a \in {<<>>, <<<<1, 0, 0, 0, 1, 2, 3>>>>, <<<<1, 1, 0, 0, 1, 2, 3>>, <<1, -1, 1, 1, 4, 5, 6>>>>}}
Msg(p) == [x |-> p[1], y |-> p[2], z |-> p[3]]
Seq3(m) == <<m.x, m.y, m.z>>
\* quaternions that stand for a rotation matrix (times four)
Quats(m) == {q \in Group : \A i \in 1..3, j \in 1..3 : Rot(q)[i][j] * 4 = m[i][j] * N2(q)}
Mat(q) == [i \in 1..3 |-> [j \in 1..3 |-> (Rot(q)[i][j] * 4) \div N2(q)]]
IsMsg(f) == f \in {"pt", "vec", "ptst"}
\* a form as it is stored
Store(f, a) ==
  CASE f \in {"pt", "vec", "ptst"} -> Msg(a) [] f = "v3" -> First3(a) [] f = "v4" -> a [] f \in {"q"} -> a [] f = "qm" -> [w |-> a[1], x |-> a[2], y |-> a[3], z |-> a[4]]
    [] f = "iso" -> [r |-> Mat(<<a[1], a[2], a[3], a[4]>>), p |-> <<a[5], a[6], a[7]>>]
    [] OTHER -> [q |-> <<a[1], a[2], a[3], a[4]>>, p |-> <<a[5], a[6], a[7]>>]
ElemForm(f) == CASE f \in {"m3x", "vv3"} -> "v3" [] f = "pts" -> "pt" [] f = "vecs" -> "vec" [] f = "isos" -> "iso" [] f = "poses" -> "pose" [] f = "tfs" -> "tf" [] OTHER -> f
\* all outcomes of one conversion of one stored value
Conv(f, g, v) ==
  CASE g \in {"pt", "vec"} /\ f = "v3" -> {Seq3(v)}
    [] g \in {"pt", "vec"} /\ f = "v4" -> {Append(Seq3(v), IF g = "pt" THEN 1 ELSE 0)}
    [] g = "ptst" -> {v}
    [] g \in {"v3", "v4"} -> {Msg(v)}
    [] g = "q" -> {[w |-> v[1], x |-> v[2], y |-> v[3], z |-> v[4]]}
    [] g = "qm" -> {<<v.w, v.x, v.y, v.z>>}
    [] g \in {"pose", "tf"} /\ f = "iso" -> {[r |-> Mat(v.q), p |-> v.p]}
    [] g = "iso" -> {[q |-> q, p |-> v.p] : q \in Quats(v.r)}
    [] OTHER -> {v}
Init == \E s \in Starts : /\ orig = s.a /\ form = s.f /\ prev = "" /\ chain = <<s.f>>
                          /\ val = [i \in DOMAIN s.a |-> Store(ElemForm(s.f), s.a[i])]
Next == \E f \in Forms : /\ form \in From(f) /\ Len(chain) < MaxLen
                         /\ val' \in {v \in [DOMAIN val -> UNION {Conv(ElemForm(f), ElemForm(form), val[i]) : i \in DOMAIN val}] : \A i \in DOMAIN val : v[i] \in Conv(ElemForm(f), ElemForm(form), val[i])}
                         /\ form' = f /\ prev' = form /\ chain' = Append(chain, f) /\ orig' = orig
Spec == Init /\ [][Next]_vars
\* reading the stored form as it would be looked at from outside
Look(f, v) == CASE IsMsg(f) -> Seq3(v) [] f = "qm" -> <<v.w, v.x, v.y, v.z>>
                [] f = "iso" -> [i \in 1..3 |-> Append(v.r[i], v.p[i] * 4)]
                [] f \in Posed -> [i \in 1..3 |-> Append(Mat(v.q)[i], v.p[i] * 4)]
                [] OTHER -> v
Carried == prev # "" => IF form \in Lists THEN /\ DOMAIN val = DOMAIN orig
                                              /\ \A i \in DOMAIN orig : Look(ElemForm(form), val[i]) = One(form, prev, orig[i], 4)
                        ELSE Look(form, val[1]) = Holds(form, prev, orig, 4)
Emit == Len(chain) = MaxLen => PrintT(ToJson(chain))
=============================================================================
