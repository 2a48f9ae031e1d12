------------------------------- MODULE Atomics -------------------------------
(* Cells holding a value; threads that call operations on them. A call takes effect at one
   moment between its start and its end (copying one cell onto another: at one moment it
   reads, at a later one it writes; onto itself: no effect). What is known from outside is
   the set of worlds that explain the starts, ends and results seen so far. *)
EXTENDS Integers, Sequences, FiniteSets
\* values wrap around like those of an integer type with the given smallest value and size
Wrap(x, lo, n) == IF n = 0 THEN x ELSE ((x - lo) % n) + lo
Idle == [st |-> 0, op |-> "none", i |-> 1, j |-> 1, v |-> 0, r |-> 0]
Start(w, t, op, i, j, v) == [w EXCEPT !.p[t] = [st |-> 1, op |-> op, i |-> i, j |-> j, v |-> v, r |-> 0]]
\* what taking effect may do to a world
Effect(w, t, lo, n) ==
  LET c == w.p[t]
      Done(r, i, x) == {[v |-> [w.v EXCEPT ![i] = x], p |-> [w.p EXCEPT ![t] = [c EXCEPT !.st = 3, !.r = r]]]} IN
  IF c.st = 2 THEN {[v |-> [w.v EXCEPT ![c.j] = c.r], p |-> [w.p EXCEPT ![t] = [c EXCEPT !.st = 3, !.r = 0]]]}
  ELSE IF c.st # 1 THEN {}
  ELSE CASE c.op = "load" -> Done(w.v[c.i], c.i, w.v[c.i])
         [] c.op = "store" -> Done(0, c.i, Wrap(c.v, lo, n))
         [] c.op = "add" -> Done(w.v[c.i], c.i, Wrap(w.v[c.i] + c.v, lo, n))
         [] c.op = "sub" -> Done(w.v[c.i], c.i, Wrap(w.v[c.i] - c.v, lo, n))
         [] c.op = "assign" -> IF c.i = c.j THEN Done(0, c.i, w.v[c.i])
                               ELSE {[w EXCEPT !.p[t] = [c EXCEPT !.st = 2, !.r = w.v[c.i]]]}
RECURSIVE Close(_, _, _)
Close(S, lo, n) == LET X == S \cup UNION {UNION {Effect(w, t, lo, n) : t \in DOMAIN w.p} : w \in S} IN
                   IF X = S THEN S ELSE Close(X, lo, n)
Started(S, t, op, i, j, v, lo, n) == Close({Start(w, t, op, i, j, v) : w \in S}, lo, n)
Ended(S, t, r) == {[w EXCEPT !.p[t] = Idle] : w \in {u \in S : u.p[t].st = 3 /\ u.p[t].r = r}}
World(vals, threads) == [v |-> vals, p |-> [t \in 1..threads |-> Idle]]
=============================================================================
