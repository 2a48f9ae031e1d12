------------------------------ MODULE Sampling ------------------------------
(* Normal distributions on a lattice of sixteenths of a standard deviation, probabilities in
   units of 10^-8, and rotations, whose uniform distribution has the moments of the 24
   axis-aligned rotations up to the third order. *)
EXTENDS Rigid, FiniteSets
\* probability above k sixteenths, and the density there
LOCAL Above ==
   << 50000000, 47508233, 45026178, 42563431, 40129367, 37733028, 35383023, 33087439, 30853754, 28688770,
    26598553, 24588385, 22662735, 20825239, 19078695, 17425071, 15865525, 14400438, 13029452, 11751523,
    10564977, 9467574, 8456572, 7528799, 6680720, 5908512, 5208128, 4575362, 4005916, 3495449, 3039636,
    2634213, 2275013, 1958008, 1679331, 1435302, 1222447, 1037507, 877448, 739461, 620967, 519608, 433245,
    359946, 297976, 245790, 202014, 165435, 134990, 109748, 88903, 71754, 57703, 46233, 36908, 29356, 23263,
    18367, 14448, 11323, 8842, 6878, 5331, 4117, 3167, 2427, 1854, 1410, 1069, 807, 607, 455, 340, 253, 187,
    138, 102, 75, 54, 40, 29, 21, 15, 11, 8, 5, 4, 3, 2, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0 >>
LOCAL Density ==
   << 39894228, 39816386, 39583769, 39199090, 38666812, 37993061, 37185509, 36253232, 35206533, 34056759,
    32816097, 31497354, 30113743, 28678667, 27205500, 25707391, 24197072, 22686693, 21187665, 19710540,
    18264909, 16859318, 15501227, 14196970, 12951760, 11769701, 10653827, 9606150, 8627732, 7718758, 6878628,
    6106041, 5399097, 4755389, 4172099, 3646083, 3173965, 2752208, 2377190, 2045267, 1752830, 1496350,
    1272418, 1077780, 909356, 764261, 639812, 533540, 443185, 366696, 302226, 248119, 202905, 165283, 134112,
    108395, 87268, 69985, 55906, 44485, 35260, 27838, 21893, 17151, 13383, 10402, 8054, 6212, 4772, 3652,
    2783, 2113, 1598, 1204, 904, 675, 503, 373, 276, 203, 149, 109, 79, 57, 41, 30, 21, 15, 11, 8, 5, 4, 3,
    2, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
Inf == 1000
Full8 == 100000000
Cum(k) == IF k >= 0 THEN Full8 - (IF k > 112 THEN 0 ELSE Above[k + 1]) ELSE IF k < -112 THEN 0 ELSE Above[1 - k]
Dens(k) == IF Abs(k) > 112 THEN 0 ELSE Density[Abs(k) + 1]
Within(k, lo, hi) == IF k < lo THEN lo ELSE IF k > hi THEN hi ELSE k
\* share of the truncated distribution below k, in units of 1/Whole, Whole <= 100000
Coarse(lo, hi) == (Cum(hi) - Cum(lo)) \div 100000 + 1
Whole(lo, hi) == (Cum(hi) - Cum(lo)) \div Coarse(lo, hi)
Share(k, lo, hi) == (Cum(Within(k, lo, hi)) - Cum(lo)) \div Coarse(lo, hi)
\* is an observed number out of n (at most 20000) believable where e are expected: within seven
\* standard deviations and a little more
Sq(x) == x * x
Believable(seen, e, n) == LET d == Abs(seen - e) IN d <= 12 \/ Sq(d - 12) <= 49 * ((e * (n - e)) \div n)
\* ---- rotations
RECURSIVE Closure(_)
Quarters == { [i \in 1..3 |-> [j \in 1..3 |-> Rot(a)[i][j] \div 2]] : a \in {<<1, 1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, 0, 1>>} }
Closure(S) == LET T == S \cup {Mul3(a, b) : a \in S, b \in Quarters} IN IF T = S THEN S ELSE Closure(T)
Group == Closure({Id3})
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* expected products of entries, times 24
First(i, j) == Sum(Group, [g \in Group |-> g[i][j]])
Second(a, b) == Sum(Group, [g \in Group |-> g[a[1]][a[2]] * g[b[1]][b[2]]])
Third(a, b, d) == Sum(Group, [g \in Group |-> g[a[1]][a[2]] * g[b[1]][b[2]] * g[d[1]][d[2]]])
Entry(n) == << (n - 1) \div 3 + 1, ((n - 1) % 3) + 1 >>
Expect1 == [n \in 1..9 |-> First(Entry(n)[1], Entry(n)[2])]
Expect2 == [n \in 1..81 |-> Second(Entry((n - 1) \div 9 + 1), Entry(((n - 1) % 9) + 1))]
Triples == << <<1, 5, 9>>, <<2, 6, 7>>, <<3, 4, 8>>, <<1, 6, 8>>, <<2, 4, 9>>, <<3, 5, 7>>, <<1, 1, 1>>, <<1, 2, 3>>, <<1, 5, 5>>, <<9, 9, 1>> >>
Expect3 == [n \in 1..Len(Triples) |-> Third(Entry(Triples[n][1]), Entry(Triples[n][2]), Entry(Triples[n][3]))]
\* probability, in units of 10^-5, that the angle of a random rotation is at most k twelfths of a half turn
AngleBelow ==
   << 0, 95, 751, 2492, 5767, 10920, 18169, 27587, 39100, 52492, 67418, 83428, 100000 >>
=============================================================================
