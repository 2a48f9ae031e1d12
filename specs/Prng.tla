--------------------------------- MODULE Prng ---------------------------------
(* The three generators on words of 64 bits, a word being four limbs of 16 bits, lowest first.
   A generator is [kind, s: sequence of words, p: position]. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
B16 == 65536
Zero == <<0, 0, 0, 0>>
W(a, b, c, d) == <<d, c, b, a>>       \* written highest limb first
\* tuples are written out so that TLC evaluates them once
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
AddW(x, y) ==
  LET s1 == x[1] + y[1] s2 == x[2] + y[2] + s1 \div B16 s3 == x[3] + y[3] + s2 \div B16 s4 == x[4] + y[4] + s3 \div B16
  IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>
Limb(x, i) == IF i \in 1..4 THEN x[i] ELSE 0
Shl(x, n) == LET q == n \div 16 r == n % 16 IN
  LET f(i) == ((Limb(x, i - q) * 2^r) % B16) + (Limb(x, i - q - 1) \div 2^(16 - r)) IN <<f(1), f(2), f(3), f(4)>>
Shr(x, n) == LET q == n \div 16 r == n % 16 IN
  LET f(i) == (Limb(x, i + q) \div 2^r) + ((Limb(x, i + q + 1) * 2^(16 - r)) % B16) IN <<f(1), f(2), f(3), f(4)>>
Bytes(x) == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256, x[3] % 256, x[3] \div 256, x[4] % 256, x[4] \div 256>>
MulW(x, y) ==
  LET b == Bytes(y)
      t0 == x[1] * b[1]
      t1 == x[1] * b[2] + (t0 \div 256)
      t2 == x[1] * b[3] + x[2] * b[1] + (t1 \div 256)
      t3 == x[1] * b[4] + x[2] * b[2] + (t2 \div 256)
      t4 == x[1] * b[5] + x[2] * b[3] + x[3] * b[1] + (t3 \div 256)
      t5 == x[1] * b[6] + x[2] * b[4] + x[3] * b[2] + (t4 \div 256)
      t6 == x[1] * b[7] + x[2] * b[5] + x[3] * b[3] + x[4] * b[1] + (t5 \div 256)
      t7 == x[1] * b[8] + x[2] * b[6] + x[3] * b[4] + x[4] * b[2] + (t6 \div 256)
  IN <<(t0 % 256) + 256 * (t1 % 256), (t2 % 256) + 256 * (t3 % 256), (t4 % 256) + 256 * (t5 % 256), (t6 % 256) + 256 * (t7 % 256)>>

\* SplitMix64
Gamma == W(40503, 31161, 32586, 31765)   \* 9E37 79B9 7F4A 7C15
M1 == W(48984, 18285, 7396, 58809)       \* BF58 476D 1CE4 E5B9
M2 == W(38096, 18875, 4913, 4587)        \* 94D0 49BB 1331 11EB
Mix(z0) == LET z1 == MulW(XorW(z0, Shr(z0, 30)), M1) z2 == MulW(XorW(z1, Shr(z1, 27)), M2) IN XorW(z2, Shr(z2, 31))
StepS(s) == LET t == AddW(s, Gamma) IN [s |-> t, v |-> Mix(t)]
RECURSIVE Fill(_, _, _)
Fill(s, n, acc) == IF n = 0 THEN acc ELSE LET r == StepS(s) IN Fill(r.s, n - 1, Append(acc, r.v))
Star == W(4198, 35284, 21655, 64949)     \* 1181783497276652981 = 1066 89D4 5497 FDB5
Kinds == {"split", "plus", "star"}
Seeded(kind, seed) ==
  CASE kind = "split" -> [kind |-> kind, s |-> <<seed>>, p |-> 0]
    [] kind = "plus" -> [kind |-> kind, s |-> Fill(seed, 2, <<>>), p |-> 0]
    [] kind = "star" -> [kind |-> kind, s |-> Fill(seed, 16, <<>>), p |-> 0]
Draw(g) == \* [g: the generator afterwards, v: the value]
  CASE g.kind = "split" -> LET r == StepS(g.s[1]) IN [g |-> [g EXCEPT !.s = <<r.s>>], v |-> r.v]
    [] g.kind = "plus" ->
         LET x == g.s[1] y == g.s[2] a == XorW(x, Shl(x, 23))
             n == XorW(XorW(a, y), XorW(Shr(a, 18), Shr(y, 5))) IN
         [g |-> [g EXCEPT !.s = <<y, n>>], v |-> AddW(n, y)]
    [] g.kind = "star" ->
         LET x == g.s[g.p + 1] q == (g.p + 1) % 16 y == g.s[q + 1] a == XorW(y, Shl(y, 31))
             n == XorW(XorW(a, x), XorW(Shr(a, 11), Shr(x, 30))) IN
         [g |-> [g EXCEPT !.s[q + 1] = n, !.p = q], v |-> MulW(n, Star)]
Upto(n) == [i \in 1..n |-> i]
Skip(g, n) == FoldLeft(LAMBDA a, i : Draw(a).g, g, Upto(n))
Draws(g, n, acc) == FoldLeft(LAMBDA a, i : LET r == Draw(a.g) IN [g |-> r.g, v |-> Append(a.v, r.v)], [g |-> g, v |-> acc], Upto(n))
=============================================================================
