------------------------------ MODULE MCAtomics ------------------------------
(* The wrapper as it is built, one step per access to a cell, watched from outside: the set
   of worlds explaining what was seen never becomes empty, one of them is the real one, and
   nothing added is lost. *)
EXTENDS Atomics
CONSTANTS Threads, Ops, Cells, Lo, N, Split
VARIABLES val, call, left, seen, total
vars == <<val, call, left, seen, total>>
Init == /\ val = [i \in 1..Cells |-> 0] /\ call = [t \in 1..Threads |-> Idle] /\ left = [t \in 1..Threads |-> Ops]
        /\ seen = {World([i \in 1..Cells |-> 0], Threads)} /\ total = 0
Kinds == {<<"load", 1, 1, 0>>, <<"store", 2, 2, 1>>, <<"add", 1, 1, 1>>, <<"sub", 1, 1, 2>>, <<"assign", 1, 2, 0>>, <<"assign", 2, 2, 0>>, <<"assign", 1, 1, 0>>}
Begin(t) == /\ call[t].st = 0 /\ left[t] > 0
            /\ \E k \in Kinds : /\ call' = [call EXCEPT ![t] = [st |-> 1, op |-> k[1], i |-> k[2], j |-> k[3], v |-> k[4], r |-> 0]]
                                /\ seen' = Started(seen, t, k[1], k[2], k[3], k[4], Lo, N)
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<val, total>>
\* one access; with Split, adding is done by reading and then writing
Access(t) ==
  LET c == call[t] Finish(r, i, x) == val' = [val EXCEPT ![i] = x] /\ call' = [call EXCEPT ![t] = [c EXCEPT !.st = 3, !.r = r]] IN
  /\ c.st \in {1, 2} /\ UNCHANGED <<left, seen>>
  /\ CASE c.st = 2 /\ c.op = "assign" -> Finish(0, c.j, c.r) /\ UNCHANGED total
       [] c.st = 2 -> Finish(c.r, c.i, Wrap(c.r + c.v, Lo, N)) /\ total' = Wrap(total + c.v, Lo, N)
       [] c.op = "load" -> Finish(val[c.i], c.i, val[c.i]) /\ UNCHANGED total
       [] c.op = "store" -> Finish(0, c.i, Wrap(c.v, Lo, N)) /\ UNCHANGED total
       [] c.op = "add" /\ Split -> call' = [call EXCEPT ![t] = [c EXCEPT !.st = 2, !.r = val[c.i]]] /\ UNCHANGED <<val, total>>
       [] c.op = "add" -> Finish(val[c.i], c.i, Wrap(val[c.i] + c.v, Lo, N)) /\ total' = Wrap(total + c.v, Lo, N)
       [] c.op = "sub" -> Finish(val[c.i], c.i, Wrap(val[c.i] - c.v, Lo, N)) /\ total' = Wrap(total - c.v, Lo, N)
       [] c.op = "assign" -> IF c.i = c.j THEN Finish(0, c.i, val[c.i]) /\ UNCHANGED total
                             ELSE call' = [call EXCEPT ![t] = [c EXCEPT !.st = 2, !.r = val[c.i]]] /\ UNCHANGED <<val, total>>
End(t) == /\ call[t].st = 3 /\ seen' = Ended(seen, t, call[t].r) /\ call' = [call EXCEPT ![t] = Idle] /\ UNCHANGED <<val, left, total>>
Next == \E t \in 1..Threads : Begin(t) \/ Access(t) \/ End(t)
Spec == Init /\ [][Next]_vars
Explained == seen # {}
RealOne == [v |-> val, p |-> call] \in seen
NothingLost == val[1] = total
=============================================================================
