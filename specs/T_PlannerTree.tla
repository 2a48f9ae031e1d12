---------------------------- MODULE T_PlannerTree ----------------------------
EXTENDS PlannerTree, TLC, Json, IOUtils
VARIABLES c, l, S
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Seen(e) == [k \in DOMAIN e.S |-> AsTree(e.S[k])]
Clean(e) == \A k \in DOMAIN e.S : NoDup(e.S[k])
To(Q) == S' = Q
Sub(s, T) == [S EXCEPT ![s + 1] = T]
InRange(s, i) == i \in Idx(S[s + 1])
Next1(e) ==
  CASE e.op = "add" -> e.how = "ok" /\ e.r = Len(S[e.s + 1]) /\ To(Sub(e.s, Add(S[e.s + 1], e.v)))
    [] e.op = "con" -> IF CanConnect(S[e.s + 1], e.p)
                       THEN e.how = "ok" /\ e.r = Len(S[e.s + 1]) /\ To(Sub(e.s, Connect(S[e.s + 1], e.v, e.p)))
                       ELSE e.how = "err" /\ To(S)
    [] e.op = "val" -> IF InRange(e.s, e.i) THEN e.how = "ok" /\ To(Sub(e.s, SetVal(S[e.s + 1], e.i, e.v)))
                       ELSE e.how = "err" /\ To(S)
    [] e.op = "clr" -> e.how = "ok" /\ To(Sub(e.s, <<>>))
    [] e.op \in {"cpy", "ser"} -> e.how = "ok" /\ e.same /\ To(Sub(e.t, S[e.s + 1]))
    [] e.op = "dmg" -> e.how = "err" /\ To(S)
    \* replacing all nodes, or building a tree (also from a buffer) from nodes
    [] e.op \in {"set", "new", "dsr"} ->
         IF NoDup(e.N) \/ ~Linked(AsTree(e.N))
         THEN IF Linked(AsTree(e.N)) THEN e.how = "ok" /\ To(Sub(e.s, AsTree(e.N))) ELSE e.how = "err" /\ To(S)
         ELSE \/ (e.how = "ok" /\ To(Sub(e.s, AsTree(e.N)))) \/ (e.how = "err" /\ To(S))
    [] e.op = "lnk" -> (NoDup(e.N) => (e.r = 1) = Linked(AsTree(e.N))) /\ (e.r = 1 => Linked(AsTree(e.N))) /\ To(S)
    \* the stored tree is always accepted by the check
    [] e.op = "chk" -> e.r = 1 /\ To(S)
    [] e.op = "path" -> IF InRange(e.s, e.i) THEN e.how = "ok" /\ e.path = PathTo(S[e.s + 1], e.i) /\ To(S)
                        ELSE e.how = "err" /\ To(S)
    [] e.op = "paths" -> e.how = "ok" /\ e.paths = [k \in DOMAIN e.L |-> PathTo(S[e.s + 1], e.L[k])] /\ To(S)
    \* raw edits of one node outside any tree
    [] e.op = "raw" -> /\ To(S)
                       /\ e.after[1] = e.before[1]
                       /\ CASE e.kind = "ac" -> e.after[2] = e.before[2] /\ Range(e.after[3]) = Range(e.before[3]) \cup {e.a} /\ NoDup(<<e.after>>)
                            [] e.kind = "rc" -> e.after[2] = e.before[2] /\ Range(e.after[3]) = Range(e.before[3]) \ {e.a} /\ NoDup(<<e.after>>)
                            [] e.kind = "cc" -> e.after[2] = e.before[2] /\ e.after[3] = <<>>
                            [] e.kind = "sp" -> e.after[2] = e.a /\ e.after[3] = e.before[3]
                            [] OTHER -> FALSE
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ S = [k \in 1..3 |-> <<>>]
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ c' = c
            /\ Next1(Ev[l]) /\ S' = Seen(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, S>>
TSpec == TInit /\ [][TNext]_<<c, l, S>>
TreesLinked == \A k \in DOMAIN S : Linked(S[k])
TreesFollow == \A k \in DOMAIN S : OneParent(S[k]) /\ EndsAtRoot(S[k])
=============================================================================
