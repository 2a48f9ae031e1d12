------------------------------- MODULE MCColor -------------------------------
(* A colour whose channels are set, one at a time, from bytes, floats (also outside the range)
   and from another channel's byte value. *)
EXTENDS Color, TLC
VARIABLES ch, byte, last
vars == <<ch, byte, last>>
Init == ch = <<0, 0, 0, 0>> /\ byte = <<TRUE, TRUE, TRUE, TRUE>> /\ last = 0
Put(i, u, b) == ch' = [ch EXCEPT ![i] = u] /\ byte' = [byte EXCEPT ![i] = b] /\ last' = i
Next == \E i \in 1..2 : \/ \E k \in 0..Hex : Put(i, FromHex(k), TRUE)
                        \/ \E j \in -1..(Frac + 1) : Put(i, FromFloat(j), FALSE)
                        \/ \E o \in 1..2 : Put(i, FromHex(ToHex(ch[o])), TRUE)
Spec == Init /\ [][Next]_vars
InRange == \A i \in 1..4 : ch[i] \in 0..Full /\ ToHex(ch[i]) \in 0..Hex
RoundTrip == \A i \in 1..4 : byte[i] => FromHex(ToHex(ch[i])) = ch[i]
Closest == \A i \in 1..4 : 2 * Abs(FromHex(ToHex(ch[i])) - ch[i]) <= Frac
OthersKept == [][\A i \in 1..4 : i # last' => ch'[i] = ch[i]]_vars
Scale == \A n \in {m \in 4..Full : m % 4 = 0 /\ Full % m = 0} :
  /\ Warm(0, n) = <<0, 0, Full, Full>> /\ Warm(n, n) = <<Full, 0, 0, Full>> /\ Warm(n \div 2, n) = <<0, Full, 0, Full>>
  /\ \A k \in 0..(n - 1) : \A i \in 1..4 : Abs(Warm(k + 1, n)[i] - Warm(k, n)[i]) <= 4 * (Full \div n) /\ Warm(k, n)[i] \in 0..Full
  /\ \A k, m \in 0..n : k # m => Warm(k, n) # Warm(m, n)
=============================================================================
