---------------------------- MODULE MCPlannerTree ----------------------------
(* All histories of tree edits up to MaxLen, and all small node arrays.       *)
EXTENDS PlannerTree, TLC, Json
CONSTANTS Vals, MaxLen, MaxSize, Arrays, Mode
VARIABLES T, n, h
Arr(k, lo, hi, N) == [1..k -> [v : {0}, p : lo..hi, ch : SUBSET (0..N)]]
MInit == /\ n = 0 /\ h = <<>>
         /\ T \in (IF Mode = "arrays" THEN Arr(Arrays, -1, Arrays, Arrays - 1) ELSE {<<>>})
MNext == \/ /\ n < MaxLen /\ Mode # "arrays" /\ n' = n + 1
            /\ \/ \E v \in Vals : Len(T) < MaxSize /\ T' = Add(T, v) /\ h' = Append(h, <<"add", v>>)
               \/ \E v \in Vals, p \in -1..MaxSize : /\ Len(T) < MaxSize /\ h' = Append(h, <<"con", v, p>>)
                                                    /\ T' = IF CanConnect(T, p) THEN Connect(T, v, p) ELSE T
               \/ \E i \in Idx(T), v \in Vals : T' = SetVal(T, i, v) /\ h' = Append(h, <<"val", i, v>>)
               \/ T' = <<>> /\ T # <<>> /\ h' = Append(h, <<"clr">>)
         \/ (n = MaxLen \/ Mode = "arrays") /\ UNCHANGED <<T, n, h>>
MSpec == MInit /\ [][MNext]_<<T, n, h>>
AlwaysLinked == Mode # "arrays" => Linked(T)
FollowsFromLinked == Linked(T) => OneParent(T) /\ EndsAtRoot(T)
CheckIsLinked == CheckAsCoded(T) <=> Linked(T)
Emit == n = MaxLen => PrintT(ToJson(h))
=============================================================================
