------------------------------- MODULE Bytes64 -------------------------------
(* Base64 text of a byte string (character codes), and back. *)
EXTENDS Integers, Sequences
Char(s) == CASE s < 26 -> 65 + s [] s < 52 -> 71 + s [] s < 62 -> s - 4 [] s = 62 -> 43 [] OTHER -> 47
Sextet(ch) == CASE ch >= 65 /\ ch <= 90 -> ch - 65 [] ch >= 97 /\ ch <= 122 -> ch - 71 [] ch >= 48 /\ ch <= 57 -> ch + 4 [] ch = 43 -> 62 [] OTHER -> 63
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* k-th character (from 1) of the text of b
EncChar(b, k) ==
  LET g == (k - 1) \div 4 r == (k - 1) % 4 n == Len(b) - 3 * g
      v == At(b, 3 * g + 1) * 65536 + At(b, 3 * g + 2) * 256 + At(b, 3 * g + 3) IN
  IF n < 3 /\ r > n THEN 61
  ELSE Char(CASE r = 0 -> v \div 262144 [] r = 1 -> (v \div 4096) % 64 [] r = 2 -> (v \div 64) % 64 [] OTHER -> v % 64)
Enc(b) == [k \in 1..(4 * ((Len(b) + 2) \div 3)) |-> EncChar(b, k)]
Pads(t) == IF Len(t) = 0 THEN 0 ELSE IF t[Len(t) - 1] = 61 THEN 2 ELSE IF t[Len(t)] = 61 THEN 1 ELSE 0
\* the text without its padding, and padded again
Bare(t) == SubSeq(t, 1, Len(t) - Pads(t))
Full(t) == CASE Len(t) % 4 = 2 -> t \o <<61, 61>> [] Len(t) % 4 = 3 -> Append(t, 61) [] OTHER -> t
Dec(t) == [i \in 1..(3 * (Len(t) \div 4) - Pads(t)) |->
  LET g == (i - 1) \div 3 r == (i - 1) % 3 s(k) == LET ch == t[4 * g + k] IN IF ch = 61 THEN 0 ELSE Sextet(ch) IN
  CASE r = 0 -> s(1) * 4 + s(2) \div 16 [] r = 1 -> (s(2) % 16) * 16 + s(3) \div 4 [] OTHER -> (s(3) % 4) * 64 + s(4)]
=============================================================================
