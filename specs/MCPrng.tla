-------------------------------- MODULE MCPrng --------------------------------
(* Two variables holding generators; any order of seeding, drawing, skipping, copying.
   Ghost: the seed and how many values each is past it. Each state is what a fresh generator
   with that seed has after that many draws, so skipping equals drawing, seeding starts anew
   at any moment, and copies go on alike and apart. *)
EXTENDS Prng, TLC
CONSTANTS Kind, Depth
VARIABLES g, ghost, n
Seeds == {Zero, W(0, 0, 0, 1), W(65535, 65535, 65535, 65535), W(0, 0, 0, 42)}
Init == \E a \in Seeds : g = [i \in 1..2 |-> Seeded(Kind, a)] /\ ghost = [i \in 1..2 |-> <<a, 0>>] /\ n = 0
Op == /\ n < Depth /\ n' = n + 1
      /\ \E i \in 1..2 : \/ \E a \in {Zero, W(0, 0, 0, 42)} : g' = [g EXCEPT ![i] = Seeded(Kind, a)] /\ ghost' = [ghost EXCEPT ![i] = <<a, 0>>]
                         \/ g' = [g EXCEPT ![i] = Draw(g[i]).g] /\ ghost' = [ghost EXCEPT ![i][2] = @ + 1]
                         \/ \E k \in {0, 3, 17} : g' = [g EXCEPT ![i] = Skip(g[i], k)] /\ ghost' = [ghost EXCEPT ![i][2] = @ + k]
                         \/ g' = [g EXCEPT ![i] = g[3 - i]] /\ ghost' = [ghost EXCEPT ![i] = ghost[3 - i]]
Spec == Init /\ [][Op]_<<g, ghost, n>>
SameAsFresh == \A i \in 1..2 : g[i] = Skip(Seeded(Kind, ghost[i][1]), ghost[i][2])
\* the published first outputs of SplitMix64 for seed 0
Known == /\ Draw(Seeded("split", Zero)).v = W(57888, 43065, 31517, 52655)
         /\ MulW(W(65535, 65535, 65535, 65535), W(65535, 65535, 65535, 65535)) = W(0, 0, 0, 1)
         /\ Shl(W(1, 2, 3, 4), 16) = W(2, 3, 4, 0) /\ Shr(Shl(W(0, 2, 3, 4), 11), 11) = W(0, 2, 3, 4)
=============================================================================
