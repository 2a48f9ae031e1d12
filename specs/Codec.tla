-------------------------------- MODULE Codec --------------------------------
(* What is written to a byte buffer and what reading gives back.
   A type is a tree <<kind, ...>>:
     <<"leaf", n, net>>        n bytes; net: most significant byte first, else last
     <<"vec", T, net>>         count (HDR bytes), then the items
     <<"set"/"mset", T, net>>  the same, the order of items being immaterial; a set
                               keeps the first of equal items
     <<"map", K, V, net>>      a set of pairs, of equal keys the first stays
     <<"pair", A, B>>  <<"fix", T, n>>   one after the other, no count
     <<"mat", T, net>>         rows, columns, then the items column by column
   A value of a leaf is the sequence of its bytes, most significant first; of a matrix
   <<rows, cols, items>>; of the others the sequence of the values inside. *)
EXTENDS Naturals, Sequences
CONSTANT HDR
Bad == [ok |-> FALSE]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Concat(_), NumBE(_, _), Same(_, _, _), Enc(_, _), Dec(_, _, _), DecN(_, _, _, _, _)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* a count as bytes, most significant first, and back (everything that cannot be the
\* count of items present in a buffer is the same: too many)
TooMany == 1000000
CountBytes(k) == [i \in 1..HDR |-> IF i = HDR THEN k % 256 ELSE IF i = HDR - 1 THEN k \div 256 ELSE 0]
NumBE(s, acc) == IF s = <<>> THEN acc ELSE IF acc > TooMany \div 256 THEN TooMany ELSE NumBE(Tail(s), acc * 256 + Head(s))
Order(net, s) == IF net THEN s ELSE Rev(s)

Enc(ty, v) ==
  CASE ty[1] = "leaf" -> Order(ty[3], v)
    [] ty[1] \in {"vec", "set", "mset"} -> Order(ty[3], CountBytes(Len(v))) \o Concat([i \in DOMAIN v |-> Enc(ty[2], v[i])])
    [] ty[1] = "map" -> Order(ty[4], CountBytes(Len(v))) \o Concat([i \in DOMAIN v |-> Enc(ty[2], v[i][1]) \o Enc(ty[3], v[i][2])])
    [] ty[1] = "pair" -> Enc(ty[2], v[1]) \o Enc(ty[3], v[2])
    [] ty[1] = "fix" -> Concat([i \in DOMAIN v |-> Enc(ty[2], v[i])])
    [] ty[1] = "mat" -> Order(ty[3], CountBytes(v[1])) \o Order(ty[3], CountBytes(v[2])) \o Concat([i \in DOMAIN v[3] |-> Enc(ty[2], v[3][i])])

\* equal as values of the type
Same(ty, a, b) ==
  CASE ty[1] = "leaf" -> a = b
    [] ty[1] = "vec" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(ty[2], a[i], b[i])
    [] ty[1] = "set" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : Same(ty[2], a[i], b[j])
    [] ty[1] = "mset" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : LET Eq(y) == Same(ty[2], a[i], y) IN Len(SelectSeq(a, Eq)) = Len(SelectSeq(b, Eq))
    [] ty[1] = "map" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : Same(ty[2], a[i][1], b[j][1]) /\ Same(ty[3], a[i][2], b[j][2])
    [] ty[1] = "pair" -> Same(ty[2], a[1], b[1]) /\ Same(ty[3], a[2], b[2])
    [] ty[1] = "fix" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(ty[2], a[i], b[i])
    [] ty[1] = "mat" -> a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : Same(ty[2], a[3][i], b[3][i])

\* add item x to what was read of a container of kind ty
Put(ty, acc, x) ==
  CASE ty[1] = "set" /\ \E i \in DOMAIN acc : Same(ty[2], acc[i], x) -> acc
    [] ty[1] = "map" /\ \E i \in DOMAIN acc : Same(ty[2], acc[i][1], x[1]) -> acc
    [] OTHER -> Append(acc, x)
\* n items of type it, from byte at on (counted from 0)
DecN(ty, it, b, at, na) ==
  IF na[1] = 0 THEN [ok |-> TRUE, v |-> na[2], at |-> at]
  ELSE LET d == Dec(it, b, at) IN IF ~d.ok THEN Bad ELSE DecN(ty, it, b, d.at, <<na[1] - 1, Put(ty, na[2], d.v)>>)
Count(b, at, net) == IF at + HDR > Len(b) THEN TooMany ELSE NumBE(Order(net, SubSeq(b, at + 1, at + HDR)), 0)
Dec(ty, b, at) ==
  CASE ty[1] = "leaf" -> IF at + ty[2] > Len(b) THEN Bad ELSE [ok |-> TRUE, v |-> Order(ty[3], SubSeq(b, at + 1, at + ty[2])), at |-> at + ty[2]]
    [] ty[1] \in {"vec", "set", "mset"} -> LET k == Count(b, at, ty[3]) IN IF k > Len(b) THEN Bad ELSE DecN(ty, ty[2], b, at + HDR, <<k, <<>>>>)
    [] ty[1] = "map" -> LET k == Count(b, at, ty[4]) IN IF k > Len(b) THEN Bad ELSE DecN(ty, <<"pair", ty[2], ty[3]>>, b, at + HDR, <<k, <<>>>>)
    [] ty[1] = "pair" -> LET d == Dec(ty[2], b, at) IN IF ~d.ok THEN Bad ELSE LET e == Dec(ty[3], b, d.at) IN IF ~e.ok THEN Bad ELSE [ok |-> TRUE, v |-> <<d.v, e.v>>, at |-> e.at]
    [] ty[1] = "fix" -> DecN(ty, ty[2], b, at, <<ty[3], <<>>>>)
    [] ty[1] = "mat" -> LET r == Count(b, at, ty[3]) k == Count(b, at + HDR, ty[3]) IN
                        IF r = TooMany \/ k = TooMany \/ (r # 0 /\ k > Len(b) \div r) THEN Bad
                        ELSE LET d == DecN(ty, ty[2], b, at + 2 * HDR, <<r * k, <<>>>>) IN IF ~d.ok THEN Bad ELSE [d EXCEPT !.v = <<r, k, d.v>>]
=============================================================================
