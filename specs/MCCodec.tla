------------------------------- MODULE MCCodec -------------------------------
(* A buffer to which values are appended and from which they are read in order; small
   types (counts of HDR bytes, digits 0..1). *)
EXTENDS Codec, TLC, FiniteSets
CONSTANTS MaxWrites, Rich
VARIABLES buf, wrote
Leafs == {<<"leaf", 1, FALSE>>, <<"leaf", 2, TRUE>>, <<"leaf", 2, FALSE>>}
L1 == <<"leaf", 1, FALSE>>
L2 == <<"leaf", 2, TRUE>>
Types == Leafs \cup {<<"vec", L1, FALSE>>, <<"vec", <<"leaf", 2, FALSE>>, TRUE>>, <<"set", L2, TRUE>>, <<"mset", L1, FALSE>>, <<"map", L1, L2, FALSE>>, <<"pair", L2, L1>>, <<"fix", L1, 2>>, <<"mat", L1, FALSE>>}
         \cup (IF Rich THEN {<<"vec", <<"vec", L1, TRUE>>, FALSE>>, <<"map", L1, <<"vec", L1, FALSE>>, TRUE>>, <<"vec", <<"pair", L1, <<"set", L1, FALSE>>>>, FALSE>>} ELSE {})
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Distinct(s, key(_)) == \A i, j \in DOMAIN s : i # j => key(s[i]) # key(s[j])
RECURSIVE Vals(_)
Vals(ty) ==
  CASE ty[1] = "leaf" -> [1..ty[2] -> {0, 1}]
    [] ty[1] \in {"vec", "mset"} -> SeqsUpTo(Vals(ty[2]), 2)
    [] ty[1] = "set" -> {s \in SeqsUpTo(Vals(ty[2]), 2) : Distinct(s, LAMBDA x : x)}
    [] ty[1] = "map" -> {s \in SeqsUpTo(Vals(ty[2]) \X Vals(ty[3]), 2) : Distinct(s, LAMBDA x : x[1])}
    [] ty[1] = "pair" -> Vals(ty[2]) \X Vals(ty[3])
    [] ty[1] = "fix" -> [1..ty[3] -> Vals(ty[2])]
    [] ty[1] = "mat" -> UNION {{<<r, k, s>> : s \in [1..(r * k) -> Vals(ty[2])]} : r \in 0..2, k \in 0..1}
Init == buf = <<>> /\ wrote = <<>>
Write == /\ Len(wrote) < MaxWrites
         /\ \E ty \in Types : \E v \in Vals(ty) : /\ buf' = buf \o Enc(ty, v)
                                                  /\ wrote' = Append(wrote, [ty |-> ty, v |-> v, at |-> Len(buf)])
Spec == Init /\ [][Write]_<<buf, wrote>>
ReadsBack == \A i \in DOMAIN wrote : LET w == wrote[i] d == Dec(w.ty, buf, w.at) IN
               d.ok /\ Same(w.ty, w.v, d.v) /\ d.at = IF i = Len(wrote) THEN Len(buf) ELSE wrote[i + 1].at
\* a buffer that ends inside a value cannot be read there
CutIsRefused == wrote # <<>> => LET w == wrote[Len(wrote)] IN
                  \A k \in 0..(Len(buf) - 1) : k >= w.at => ~Dec(w.ty, SubSeq(buf, 1, k), w.at).ok
=============================================================================
