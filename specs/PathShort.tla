------------------------------ MODULE PathShort ------------------------------
(* Shortening and resampling of paths. A path is a sequence of points <<x, y>>, the
   distance is |dx| + |dy| (additive along straight lines), V a set of connections
   <<a, b>> found valid. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Dist(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
RECURSIVE Length(_), Attempt(_, _, _, _, _), Smooth(_, _, _, _, _, _)
Length(p) == IF Len(p) < 2 THEN 0 ELSE Dist(p[1], p[2]) + Length(Tail(p))
Joins(p) == {<<p[i], p[i + 1]>> : i \in 1..(Len(p) - 1)}
\* the shortcut of p between the positions s < e, <<>> if there is none: the direct
\* connection, or those of its halves that can be shortened
Attempt(V, p, s, e, bt) ==
  IF <<p[s], p[e]>> \in V THEN <<p[s], p[e]>>
  ELSE IF bt = 0 \/ e - s < 2 THEN <<>>
  ELSE LET m == s + (e - s) \div 2
           a == Attempt(V, p, s, m, bt - 1) b == Attempt(V, p, m, e, bt - 1) IN
       IF a = <<>> /\ b = <<>> THEN <<>>
       ELSE (IF a = <<>> THEN SubSeq(p, s, m) ELSE a) \o Tail(IF b = <<>> THEN SubSeq(p, m, e) ELSE b)
Replace(p, s, e, q) == SubSeq(p, 1, s - 1) \o q \o SubSeq(p, e + 1, Len(p))
\* the window picked by the draws k1 and k2 (of 1024) with a largest shortcut of m/16 of the path
Floor(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
Window(n, m, k1, k2) == LET base == (k1 * n) \div 1024
                            off == base + Floor(n * m * (2 * k2 - 1024), 16 * 1024)
                            safe == Max2(0, Min2(n - 1, off)) IN
                        <<Min2(base, safe) + 1, Max2(base, safe) + 1>>
\* prm: iterations allowed, failures allowed, backtracking, m, draws
Smooth(V, p, prm, it, fl, us) ==
  IF it >= prm.iters \/ fl >= prm.fails \/ Len(p) <= 2 THEN [p |-> p, it |-> it]
  ELSE LET U(k) == us[(k % Len(us)) + 1]
           w == Window(Len(p), prm.m, U(2 * it), U(2 * it + 1)) IN
       IF w[2] <= w[1] + 1 THEN Smooth(V, p, prm, it + 1, fl, us)
       ELSE LET q == Attempt(V, p, w[1], w[2], prm.bt) IN
            IF q = <<>> THEN Smooth(V, p, prm, it + 1, fl + 1, us) ELSE Smooth(V, Replace(p, w[1], w[2], q), prm, it + 1, fl, us)
\* x lies on the straight line from a to b (Tol: rounding of interpolated coordinates)
Cross(a, b, x) == (b[1] - a[1]) * (x[2] - a[2]) - (b[2] - a[2]) * (x[1] - a[1])
On(a, b, x, Tol) == /\ Abs(Cross(a, b, x)) <= Tol * Dist(a, b)
                    /\ Abs(Dist(a, x) + Dist(x, b) - Dist(a, b)) <= 2 * Tol
\* joined by an original connection or along one found valid
Joined(p, V, j, Tol) == j \in Joins(p) \/ j \in V
                        \/ (Tol > 0 /\ \E v \in V : On(v[1], v[2], j[1], Tol) /\ On(v[1], v[2], j[2], Tol) /\ Dist(v[1], j[1]) <= Dist(v[1], j[2]) + Tol)
Shortened(p, V, q, Tol) == /\ (p = <<>> => q = <<>>)
                           /\ (p # <<>> => q # <<>> /\ q[1] = p[1] /\ q[Len(q)] = p[Len(p)])
                           /\ Length(q) <= Length(p) + 2 * Tol * Len(q)
                           /\ \A j \in Joins(q) : Joined(p, V, j, Tol)
                           /\ (V = {} => q = p)
\* q goes along p with no step longer than res: every state of p in turn (repeated states
\* once), between them points further and further along the segment
RECURSIVE Walk(_, _, _, _)
Walk(p, q, res, Tol) ==   \* q starts at p[1]
  IF Len(p) = 1 THEN Len(q) = 1
  ELSE IF p[1] = p[2] THEN Walk(Tail(p), q, res, Tol)
  ELSE LET at == {i \in 2..Len(q) : q[i] = p[2] /\ \A k \in 2..(i - 1) : q[k] # p[2]} IN
       /\ at # {}
       /\ LET i == CHOOSE k \in at : TRUE IN
          /\ \A k \in 2..i : /\ On(p[1], p[2], q[k], Tol) /\ Dist(q[k - 1], q[k]) <= res + Tol
                             /\ Dist(p[1], q[k]) > Dist(p[1], q[k - 1])
          /\ Walk(Tail(p), SubSeq(q, i, Len(q)), res, Tol)
Resampled(p, q, res, Tol) == IF Len(p) <= 1 THEN q = p ELSE q # <<>> /\ q[1] = p[1] /\ Walk(p, q, res, Tol)
\* how many leading connections are valid
RECURSIVE Free(_, _)
Free(V, p) == IF Len(p) < 2 \/ <<p[1], p[2]>> \notin V THEN 0 ELSE 1 + Free(V, Tail(p))
=============================================================================
