----------------------------- MODULE MCBiRRTPlan -----------------------------
EXTENDS BiRRTPlan, TLC, Json
CONSTANTS Trees, MaxIter, Props, Emitting
VARIABLES s, h, n, conns
Init0(k, b) == CASE k = 1 -> <<Node(b + 1, -1)>> [] k = 2 -> Connect(Add(<<>>, b + 1), b + 2, 0) [] k = 3 -> Add(Add(<<>>, b + 1), b + 2)
P(k) == CASE k = 0 -> <<>> [] k = 1 -> <<<<5, -1>>>> [] k = 2 -> <<<<5, -1>>, <<6, 0>>>> [] k = 3 -> <<<<5, -1>>, <<6, -1>>>> [] k = 4 -> <<<<5, 0>>>>
B == BOOLEAN
CONSTANT Edits
E(k, i) == CASE k = 0 -> NoEdit [] k = 1 -> <<1, 40, i>> [] k = 2 -> <<2, 41, 0>> [] k = 3 -> <<3, 42, 0>>
MInit == \E k \in Trees, m \in Trees, sg \in B, a \in B, g \in B :
           /\ s = Start(Init0(k, 0), Init0(m, 100), sg, a, g) /\ n = 0 /\ conns = {}
           /\ h = [ta |-> k, tb |-> m, single |-> sg, hasA |-> a, hasB |-> g, it |-> <<>>, conn |-> <<>>]
Rec(f, x) == h' = IF Emitting THEN [h EXCEPT ![f] = Append(@, x)] ELSE h
Keep == h' = h
End == s.pc = "end"
N == UNCHANGED <<n, conns>>
MNext == \/ \E r \in B : s.pc \in {"init", "conn"} /\ s' = Conn(s, r) /\ Rec("conn", r) /\ n' = n /\ conns' = IF r THEN conns \cup {Pair(s)} ELSE conns
         \/ \E k, m \in Edits \ {1} : s.pc \in {"initcb", "bridge"} /\ s' = Bridge(s, E(k, 0), E(m, 0)) /\ Keep /\ N
         \/ \E r \in B : s.pc = "loop" /\ ~Found(s) /\ (n = MaxIter => r) /\ s' = Term(s, r) /\ Keep /\ n' = n + 1 /\ UNCHANGED conns
         \/ \E r \in B : s.pc = "stype" /\ s' = Stype(s, r) /\ Rec("it", <<IF r THEN 1 ELSE 0>>) /\ N
         \/ \E r \in Idx(Tgt(s)) \cup {Len(Tgt(s))} : s.pc = "tsamp" /\ s' = Tsamp(s, r) /\ Rec("it", <<r>>) /\ N
         \/ s.pc = "samp" /\ s' = Samp(s, 9) /\ Keep /\ N
         \/ \E r \in -1..Len(Act(s)) : s.pc = "near" /\ s' = Near(s, r) /\ Rec("it", <<r>>) /\ N
         \/ \E k \in Props : s.pc = "prop" /\ s' = Prop(s, P(k)) /\ Rec("it", <<k>>) /\ N
         \/ \E k \in Edits : s.pc = "added" /\ s' = Added(s, E(k, s.i)) /\ Keep /\ N
         \/ \E r \in {0, 1} : s.pc = "sact" /\ s' = Sact(s, r) /\ Rec("it", <<r>>) /\ N
         \/ (MayEnd(s) \/ MayFail(s)) /\ s' = [s EXCEPT !.pc = "end"] /\ Keep /\ N
         \/ End /\ UNCHANGED <<s, h, n, conns>>
MSpec == MInit /\ [][MNext]_<<s, h, n, conns>>
TreesAlwaysLinked == \A k \in 1..2 : Linked(s.T[k])
BridgesAccepted == \A k \in DOMAIN s.br : s.br[k] \in conns
BranchesAlwaysOK == BranchesOK(s)
CountsAddUp == s.succ + s.fail <= s.tot /\ s.tot <= s.it[1] + s.it[2]
SingleStopsAtFirst == s.single /\ s.pc \in {"stype", "samp", "tsamp"} => s.br = <<>>
OnlyActiveTreeGrows == [][OnlyActiveGrows(s, s')]_s
Emit == End => PrintT(ToJson(h))
=============================================================================
