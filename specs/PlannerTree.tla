----------------------------- MODULE PlannerTree -----------------------------
(* A planner tree: a sequence of nodes, each with a value, a parent and children. *)
(* Indices count from 0; a negative parent means the node is a root.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Node(v, p) == [v |-> v, p |-> p, ch |-> {}]
Size(T) == Len(T)
At(T, i) == T[i + 1]
Idx(T) == 0..(Len(T) - 1)
Roots(T) == {i \in Idx(T) : At(T, i).p < 0}
\* the property: child lists and parent links tell the same story, parents come first
Linked(T) ==
  \A i \in Idx(T) :
    /\ At(T, i).p >= 0 => At(T, i).p < i /\ i \in At(T, At(T, i).p).ch
    /\ \A k \in At(T, i).ch : k \in Idx(T) /\ k > i /\ At(T, k).p = i
\* what follows from it
OneParent(T) == \A k \in Idx(T) : {i \in Idx(T) : k \in At(T, i).ch} = (IF At(T, k).p < 0 THEN {} ELSE {At(T, k).p})
RECURSIVE Up(_, _, _)
\* the chain of indices from i to its root, at most n links long
Up(T, i, n) == IF n = 0 THEN <<i, -99>> ELSE IF At(T, i).p < 0 THEN <<i>> ELSE <<i>> \o Up(T, At(T, i).p, n - 1)
Chain(T, i) == Up(T, i, Size(T))
EndsAtRoot(T) == \A i \in Idx(T) : LET c == Chain(T, i) IN c[Len(c)] # -99 /\ c[Len(c)] \in Roots(T)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
PathTo(T, i) == LET c == Rev(Chain(T, i)) IN [k \in 1..Len(c) |-> At(T, c[k]).v]
\* operations
Add(T, v) == Append(T, Node(v, -1))
CanConnect(T, p) == p \in Idx(T)
Connect(T, v, p) == Append([T EXCEPT ![p + 1].ch = @ \cup {Len(T)}], Node(v, p))
SetVal(T, i, v) == [T EXCEPT ![i + 1].v = v]
\* what a callback did to the tree: <<0>> nothing, <<1>> changed a state, <<2>> added a root, <<3>> a child
Edited(T, e) == CASE e[1] = 1 -> SetVal(T, e[3], e[2]) [] e[1] = 2 -> Add(T, e[2]) [] e[1] = 3 -> Connect(T, e[2], e[3]) [] OTHER -> T
NoEdit == <<0, 0, 0>>
\* a node array as recorded: <<value, parent, list of children>>
Range(s) == {s[k] : k \in DOMAIN s}
NoDup(N) == \A k \in DOMAIN N : Cardinality(Range(N[k][3])) = Len(N[k][3])
AsTree(N) == [k \in DOMAIN N |-> [v |-> N[k][1], p |-> N[k][2], ch |-> Range(N[k][3])]]
\* the check as the code performs it, to compare with the property
CheckAsCoded(T) ==
  \A i \in Idx(T) :
    LET p == At(T, i).p
    IN /\ p <= i
       /\ (p >= 0 /\ p < Size(T)) => p # i /\ i \in At(T, p).ch
       /\ \A k \in At(T, i).ch : k > 0 /\ k < Size(T) /\ k > i /\ At(T, k).p = i
=============================================================================
