---------------------------- MODULE T_PhasePlane ----------------------------
(* A trajectory sampled at equal times: positions in thousandths, velocities in ten thousandths,
   times in ten thousandths of a second, limits in quarters. The path is what the waypoints
   give; poss holds the segments the trajectory may be on, uns counts intervals in which no
   joint used a limit in full. *)
EXTENDS PhasePlane, Json, IOUtils, TLC
VARIABLES c, l, poss, uns
vars == <<c, l, poss, uns>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
C == Cases[c]
W == Dedup(C.wp)
Segs == Len(W) - 1
Turns == Corners(W)
Is(b) == b = TRUE
Sq(x) == x * x
Joints == DOMAIN C.vm
n == Len(C.pos)
Dt(k) == IF k = n THEN C.D - (n - 2) * C.h ELSE C.h
Speed(k) == Sqrt(Dot(C.vel[k], C.vel[k], Len(C.vel[k])) \div 4 + 1) * 2
Reach(k) == (Speed(k) * C.h) \div 200000       \* half of what is covered in an interval, thousandths
NearSeg(k, j) == Off2(C.pos[k], W[j], W[j + 1]) <= Sq(C.dev + 3)
NearCorner(k, j) == From2(C.pos[k], W[j]) <= Sq(C.dev + 4 + Reach(k))
Length1000(j) == Sqrt(Dot(Sub(W[j + 1], W[j]), Sub(W[j + 1], W[j]), Len(W[j])) * 1000000)
\* progress on a segment in thousandths of a length unit is not lost
Onward(k, j) == LET t0 == Along(C.pos[k - 1], W[j], W[j + 1])
                    t1 == Along(C.pos[k], W[j], W[j + 1]) IN ((t0 - t1) * (Length1000(j) \div 100)) \div 100 <= 4 + Reach(k)
NextPoss(k) == {j \in 1..Segs : /\ NearSeg(k, j)
                                /\ \/ j \in poss /\ Onward(k, j)
                                   \/ (j - 1) \in poss /\ (NearCorner(k, j) \/ NearCorner(k - 1, j))}
Limits(k) == \A i \in Joints : Abs(C.vel[k][i]) <= 2500 * C.vm[i] + (5 * C.vm[i]) \div 2 + 1
Change(k, i) == Abs(C.vel[k][i] - C.vel[k - 1][i])
Accelerates(k) == \A i \in Joints : Change(k, i) <= ((C.am[i] * Dt(k)) \div 4) + (C.am[i] * Dt(k)) \div 40 + 4
\* position is the integral of velocity
Moves(k) == \A i \in Joints : LET d == (C.pos[k][i] - C.pos[k - 1][i]) * 20
                                  v == ((C.vel[k][i] + C.vel[k - 1][i]) * Dt(k)) \div 10000 IN
  Abs(d - v) <= (((C.am[i] * Dt(k)) \div 100) * Dt(k)) \div 6000 + 30
Uses(k) == \E i \in Joints : \/ Change(k, i) + 2 >= ((C.am[i] * Dt(k)) \div 4) - (C.am[i] * Dt(k)) \div 80
                             \/ Abs(C.vel[k][i]) >= 2490 * C.vm[i] \/ Abs(C.vel[k - 1][i]) >= 2490 * C.vm[i]
Starts == C.pos[1] = [i \in Joints |-> 1000 * W[1][i]] /\ \A i \in Joints : Abs(C.vel[1][i]) <= 2
\* with room at open corners and the same limits for all joints it is shorter than with stops
Same(f) == \A i, j \in Joints : f[i] = f[j]
Gains == /\ C.dev >= 300 /\ Len(Turns) > 2 /\ Same(C.vm) /\ Same(C.am)
         /\ \A k \in 2..(Len(Turns) - 1) : Dot(Sub(Turns[k], Turns[k - 1]), Sub(Turns[k + 1], Turns[k]), Len(Turns[1])) >= 0
Ends == /\ Segs \in poss /\ C.pos[n] = [i \in Joints |-> 1000 * W[Len(W)][i]] /\ \A i \in Joints : Abs(C.vel[n][i]) <= 5
        \* with no deviation the shortest time is known; with some it is not longer
        /\ C.D <= 10 * StopTime(Turns, C.vm, C.am) + 30 + 20 * Segs + C.D \div 200 + (IF C.dev = 0 THEN 0 ELSE 6000 * (Len(Turns) - 2))
        /\ (Gains => C.D < 10 * StopTime(Turns, C.vm, C.am))
        /\ (C.dev = 0 \/ Len(Turns) = 2) => C.D >= 10 * StopTime(Turns, C.vm, C.am) - 10 - 20 * Segs
        /\ uns <= 4 + 8 * (Len(Turns) - 2)
Step(k) == IF k = 1 THEN Starts ELSE Limits(k) /\ Accelerates(k) /\ Moves(k) /\ NextPoss(k) # {}
TInit == c \in 1..Len(Cases) /\ l = 0 /\ poss = {1} /\ uns = 0
TNext == \/ /\ l = 0 /\ l' = (IF C.r = "ok" THEN 1 ELSE n + 1) /\ UNCHANGED <<c, poss, uns>>
            /\ (IF C.r = "ok" THEN Len(W) >= 2 /\ ~C.bad /\ Is(Starts) ELSE C.r = "err" /\ (Len(W) < 2 \/ C.bad))
         \/ /\ l \in 1..(n - 1) /\ l' = l + 1 /\ c' = c /\ Is(Step(l + 1)) /\ poss' = NextPoss(l + 1) /\ uns' = uns + (IF Uses(l + 1) THEN 0 ELSE 1)
         \/ /\ l = n /\ l' = n + 1 /\ n > 0 /\ Is(Ends) /\ UNCHANGED <<c, poss, uns>>
         \/ l = n + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
