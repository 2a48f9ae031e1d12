------------------------------ MODULE MCDynGrid ------------------------------
(* All histories over a line of cells, two to a chunk; what each location reads is *)
(* compared with what its own history says.                                        *)
EXTENDS DynGrid, Sequences, Json
CONSTANTS Pts, Vals, MaxLen
VARIABLES g, h
n == <<2, 1, 1>>
P0 == [P |-> <<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, t |-> <<0, 0, 0>>]
At(x) == <<16 * (x - 3) + 8, 8, 8>>      \* Pts are naturals; cells -3, -2, ...
MInit == \E d \in {{}, {<<-2, 0, 0>>}} : g = New(n, <<16, 16, 16>>, P0, 1, d, -1, TRUE) /\ h = <<>>
MNext == \/ /\ Len(h) < MaxLen
            /\ \E x \in Pts, v \in Vals, o \in {"cell", "chunk", "mut"} :
                 /\ h' = Append(h, <<o, x, v, IF At(x) \in {At(y) : y \in {z \in Pts : Cell(g.cs, At(z)) \in g.deny}} THEN 1 ELSE 0>>)
                 /\ g' = CASE o = "mut" -> Mut(g, At(x), v) [] OTHER -> Set(g, At(x), v, o = "chunk")
         \/ Len(h) = MaxLen /\ UNCHANGED <<g, h>>
MSpec == MInit /\ [][MNext]_<<g, h>>
SameChunk(x, y) == ChunkOf(g, At(x)) = ChunkOf(g, At(y))
\* the history of one location, on its own
RECURSIVE Hist(_, _)
Hist(k, x) == IF k = 0 THEN <<"none", 0>> ELSE
  LET o == h[k] before == Hist(k - 1, x) IN
  CASE o[4] = 1 -> before
    [] o[1] = "cell" /\ o[2] = x -> <<"cell", o[3]>>
    [] o[1] = "cell" /\ SameChunk(o[2], x) -> <<"cell", IF before[1] = "none" THEN 1 ELSE before[2]>>
    [] o[1] = "chunk" /\ SameChunk(o[2], x) -> <<"chunk", o[3]>>
    [] o[1] = "mut" /\ before[1] = "cell" /\ o[2] = x -> <<"cell", o[3]>>
    [] o[1] = "mut" /\ before[1] = "chunk" /\ SameChunk(o[2], x) -> <<"chunk", o[3]>>
    [] OTHER -> before
ReadsItsHistory == \A x \in Pts : Read(g, At(x)) = Hist(Len(h), x)
WrittenOnly == \A k \in Chunks(g) : \E j \in DOMAIN h : h[j][1] # "mut" /\ h[j][4] = 0 /\ ChunkOf(g, At(h[j][2])) = k
Emit == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
