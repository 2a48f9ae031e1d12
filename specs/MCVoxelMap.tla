------------------------------ MODULE MCVoxelMap ------------------------------
(* All histories of writes, reads, resets and copies over two tiny grids.        *)
EXTENDS VoxelMap, TLC, Json
CONSTANTS Vals, MaxLen, KeepHist
VARIABLES g, k, h, last
n == <<2, 1, 1>>
pose == [P |-> <<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, t |-> <<0, 0, 0>>]
Idxs == {<<-1, 0, 0>>, <<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>}
G0(d, r) == New(n, <<16, 16, 16>>, pose, 1, 9, d, r)
MInit == \E d \in {{}, {<<1, 0, 0>>}}, r \in BOOLEAN : /\ g = [s \in {0, 1} |-> G0(d, r)] /\ k = 0 /\ h = <<<<IF d = {} THEN 0 ELSE 1, IF r THEN 1 ELSE 0>>>>
                                                      /\ last = [s \in {0, 1} |-> Fill(n, 1)]
H(x) == h' = (IF KeepHist THEN Append(h, x) ELSE h) /\ k' = k + 1
Upd(s, x) == g' = [g EXCEPT ![s] = x]
MNext ==
  \/ /\ k < MaxLen
     /\ \E s \in {0, 1} :
          \/ \E i \in Idxs, v \in Vals : /\ Upd(s, Write(g[s], i, v)) /\ H(<<"set", s, i, v>>)
                                         /\ last' = IF WriteStatus(g[s], i) = "ok" THEN [last EXCEPT ![s][i] = v] ELSE last
          \/ \E i \in CellsOf(n), v \in Vals : /\ Upd(s, RawWrite(g[s], i, v)) /\ H(<<"raw", s, i, v>>)
                                               /\ last' = IF g[s].raw THEN [last EXCEPT ![s][i] = v] ELSE last
          \/ \E v \in Vals : Upd(s, Reset(g[s], v)) /\ H(<<"fill", s, v>>) /\ last' = [last EXCEPT ![s] = Fill(n, v)]
          \/ Upd(1 - s, g[s]) /\ H(<<"copy", s>>) /\ last' = [last EXCEPT ![1 - s] = last[s]]
  \/ k = MaxLen /\ UNCHANGED <<g, k, h, last>>
MSpec == MInit /\ [][MNext]_<<g, k, h, last>>
ReadsLastWrite == \A s \in {0, 1} : \A i \in Idxs : Read(g[s], i) = (IF i \in CellsOf(n) THEN <<"ok", last[s][i]>> ELSE <<"oob", 0>>)
Emit == k = MaxLen => PrintT(ToJson(h))
=============================================================================
