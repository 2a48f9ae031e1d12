------------------------------ MODULE MCBytes64 ------------------------------
(* An encoder that takes bytes one by one and holds back the bits that do not fill a
   character; closing it pads. At every point what it has written is a prefix of the text. *)
EXTENDS Bytes64, TLC
CONSTANTS ByteSet, MaxLen
VARIABLES b, held, bits, out, closed
Init == b = <<>> /\ held = 0 /\ bits = 0 /\ out = <<>> /\ closed = FALSE
RECURSIVE Flush(_, _, _)
Pow(n) == 2^n
Flush(h, n, o) == IF n < 6 THEN [h |-> h, n |-> n, o |-> o]
  ELSE Flush(h % Pow(n - 6), n - 6, Append(o, Char(h \div Pow(n - 6))))
Put == /\ ~closed /\ Len(b) < MaxLen
       /\ \E x \in ByteSet : LET f == Flush(held * 256 + x, bits + 8, out) IN
            b' = Append(b, x) /\ held' = f.h /\ bits' = f.n /\ out' = f.o /\ UNCHANGED closed
Close == /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<b, held, bits>>
         /\ out' = CASE bits = 0 -> out [] bits = 2 -> out \o <<Char(held * 16), 61, 61>> [] bits = 4 -> out \o <<Char(held * 4), 61>>
Spec == Init /\ [][Put \/ Close]_<<b, held, bits, out, closed>>
Prefix == ~closed => \A k \in DOMAIN out : out[k] = Enc(b)[k] \/ 3 * ((k - 1) \div 4) + 3 > Len(b)
Whole == closed => out = Enc(b) /\ Dec(out) = b /\ Len(out) % 4 = 0 /\ Full(Bare(out)) = out
Alphabet == \A k \in DOMAIN out : out[k] \in (65..90) \cup (97..122) \cup (48..57) \cup {43, 47, 61}
=============================================================================
