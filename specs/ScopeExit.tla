------------------------------ MODULE ScopeExit ------------------------------
(* Scopes with registered clean-up actions and scoped settings of the number of
   threads. The stack holds <<"g", id, enabled>> for an action, <<"n", old setting>>
   for a changed setting, <<"{", catches>> for a block. mode: "run" (inside), "close"
   (leaving a block), "unwind" (an exception on its way), "end" (leaving everything). *)
EXTENDS Integers, Sequences
Start(n) == [st |-> <<>>, n |-> n, mode |-> "run"]
Top(S) == S.st[Len(S.st)]
Pop(S) == [S EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Push(S, f) == [S EXCEPT !.st = Append(@, f)]
\* leave as far as nothing has to run
RECURSIVE Norm(_)
Norm(S) ==
  IF S.mode = "run" THEN S
  ELSE IF S.st = <<>> THEN [S EXCEPT !.mode = "over"]
  ELSE CASE Top(S)[1] = "n" -> Norm([Pop(S) EXCEPT !.n = Top(S)[2]])
         [] Top(S)[1] = "g" -> IF Top(S)[3] THEN S ELSE Norm(Pop(S))
         [] OTHER -> IF S.mode = "close" \/ (S.mode = "unwind" /\ Top(S)[2]) THEN [Pop(S) EXCEPT !.mode = "run"] ELSE Norm(Pop(S))
Leave(S, how) == Norm([S EXCEPT !.mode = how])
InBlock(S) == \E i \in DOMAIN S.st : S.st[i][1] = "{"
Ids(S) == {S.st[i][2] : i \in {k \in DOMAIN S.st : S.st[k][1] = "g"}}
Enabled(S, id) == \E i \in DOMAIN S.st : S.st[i] = <<"g", id, TRUE>>
Disable(S, id) == [S EXCEPT !.st = [i \in DOMAIN @ |-> IF @[i][1] = "g" /\ @[i][2] = id THEN <<"g", id, FALSE>> ELSE @[i]]]
\* what an operation inside a scope does
Do(S, op, x) ==
  CASE op = "g" -> Push(S, <<"g", x, TRUE>>)
    [] op = "null" -> Leave(S, "unwind")
    [] op = "d" -> Disable(S, x)
    [] op = "q" -> S
    [] op = "n" -> IF x >= 1 THEN [Push(S, <<"n", S.n>>) EXCEPT !.n = x] ELSE Leave(S, "unwind")
    [] op = "par" -> S
    [] op = "ask" -> S
    [] op = "{" -> Push(S, <<"{", x = 1>>)
    [] op = "}" -> Leave(S, "close")
    [] op = "t" -> Leave(S, "unwind")
    [] op = "end" -> Leave(S, "end")
MayRun(S, id) == S.mode \in {"close", "unwind", "end"} /\ Top(S) = <<"g", id, TRUE>>
Run(S) == Norm(Pop(S))
=============================================================================
