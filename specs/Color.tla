-------------------------------- MODULE Color --------------------------------
(* Colours of four channels. A channel is a number of units out of Hex * Frac: a byte k out of
   Hex is k * Frac units, a float j out of Frac is j * Hex units. *)
EXTENDS Integers, Sequences
CONSTANTS Hex, Frac
Full == Hex * Frac
Trim(u) == IF u < 0 THEN 0 ELSE IF u > Full THEN Full ELSE u
FromHex(k) == k * Frac
ToHex(u) == (2 * Trim(u) + Frac) \div (2 * Frac)
FromFloat(j) == Trim(j * Hex)
Abs(x) == IF x < 0 THEN -x ELSE x
\* blue - cyan - green - yellow - red for k of n steps above the lower value; n a divisor of Full
\* and a multiple of 4
Warm(k0, n) ==
  LET k == IF k0 < 0 THEN 0 ELSE IF k0 > n THEN n ELSE k0
      s == 4 * (Full \div n) IN
  IF 4 * k < n THEN <<0, s * k, Full, Full>>
  ELSE IF 2 * k < n THEN <<0, Full, Full - s * (k - n \div 4), Full>>
  ELSE IF 4 * k < 3 * n THEN <<s * (k - n \div 2), Full, 0, Full>>
  ELSE <<Full, Full - s * (k - (3 * n) \div 4), 0, Full>>
Equal(a, b, tol) == \A i \in 1..4 : Abs(a[i] - b[i]) <= tol
=============================================================================
