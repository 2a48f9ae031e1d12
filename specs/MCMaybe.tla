------------------------------- MODULE MCMaybe -------------------------------
(* The storage protocol behind the optional: raw storage in which an object is
   constructed and destroyed, a tag saying which, and copies and moves that may fail.
   Checked: every object is destroyed exactly once, the tag tells the truth between
   operations, and every operation is one that Maybe allows. *)
EXTENDS Maybe, TLC
CONSTANTS Slots, Vals, TagFirst   \* TagFirst = FALSE is the protocol that was in the code before the fix
VARIABLES there,  \* there is an optional in the slot
          tag,    \* what its tag says: "none", "a" (nothing), "b"
          mem,    \* what object is really in the storage: <<>> or <<value>>
          bad,    \* an object was destroyed that was not there, or overwritten
          pc,     \* the operation under way <<op, s, d, x>> and its phase
          ab,     \* the slots as seen when the operation began
          last
vars == <<there, tag, mem, bad, pc, ab, last>>
Idle == <<"idle">>
Init == /\ there = [i \in Slots |-> FALSE] /\ tag = [i \in Slots |-> "none"] /\ mem = [i \in Slots |-> <<>>]
        /\ bad = FALSE /\ pc = Idle /\ ab = [i \in Slots |-> Absent] /\ last = <<>>
View == [i \in Slots |-> IF ~there[i] THEN Absent ELSE IF tag[i] = "b" THEN IF mem[i] = <<>> THEN <<"b", -99>> ELSE <<"b", mem[i][1]>> ELSE Empty]
Begin(op, s, d, x) == pc = Idle /\ pc' = <<op, s, d, x, "clean">> /\ ab' = View /\ UNCHANGED <<there, tag, mem, bad, last>>
Done(st) == pc' = Idle /\ last' = <<pc[1], pc[2], pc[3], pc[4], st>>
\* destroy what the tag says is there
Clean == /\ pc # Idle /\ pc[5] = "clean"
         /\ LET d == pc[3] IN
            IF (pc[1] \in {"mk", "mkv", "cp", "mv"} /\ ~there[d]) \/ (pc[1] \in {"asg", "masg"} /\ pc[2] = d)
              THEN /\ pc' = [pc EXCEPT ![5] = IF there[d] THEN "end" ELSE "build"] /\ UNCHANGED <<there, tag, mem, bad, ab, last>>
              ELSE /\ bad' = (bad \/ (tag[d] = "b" /\ mem[d] = <<>>))
                   /\ mem' = [mem EXCEPT ![d] = IF tag[d] = "b" THEN <<>> ELSE @]
                   /\ tag' = IF TagFirst THEN [tag EXCEPT ![d] = "none"] ELSE tag
                   /\ pc' = [pc EXCEPT ![5] = "build"] /\ UNCHANGED <<there, ab, last>>
Src == pc[2]
From == IF pc[1] = "mkv" THEN <<"b", pc[4]>> ELSE IF pc[1] \in {"cp", "mv", "asg", "masg"} THEN <<tag[Src], IF mem[Src] = <<>> THEN 0 ELSE mem[Src][1]>> ELSE <<"a", 0>>
Build == /\ pc # Idle /\ pc[5] = "build"
         /\ LET d == pc[3] IN
            IF pc[1] = "del" THEN /\ there' = [there EXCEPT ![d] = FALSE] /\ tag' = [tag EXCEPT ![d] = "none"]
                                  /\ Done("ok") /\ UNCHANGED <<mem, bad, ab>>
            ELSE \/ /\ From[1] # "none" \/ TagFirst
                    /\ bad' = (bad \/ mem[d] # <<>>)
                    /\ mem' = LET m == IF From[1] = "b" THEN [mem EXCEPT ![d] = <<From[2]>>] ELSE mem IN
                              IF pc[1] \in {"mv", "masg"} /\ From[1] = "b" THEN [m EXCEPT ![Src] = <<Gone>>] ELSE m
                    /\ there' = [there EXCEPT ![d] = TRUE] /\ tag' = [tag EXCEPT ![d] = From[1]]
                    /\ Done("ok") /\ UNCHANGED ab
                 \/ /\ From[1] = "b"    \* the copy or move throws
                    /\ Done("err") /\ UNCHANGED <<there, tag, mem, bad, ab>>
End == pc # Idle /\ pc[5] = "end" /\ Done("ok") /\ UNCHANGED <<there, tag, mem, bad, ab>>
Start == /\ pc = Idle
         /\ \E d \in Slots : \/ ~there[d] /\ (Begin("mk", d, d, 0) \/ \E v \in Vals : Begin("mkv", d, d, v))
                             \/ ~there[d] /\ \E s \in Slots \ {d} : there[s] /\ (Begin("cp", s, d, 0) \/ Begin("mv", s, d, 0))
                             \/ there[d] /\ \E s \in Slots : there[s] /\ (Begin("asg", s, d, 0) \/ Begin("masg", s, d, 0))
                             \/ there[d] /\ (Begin("reset", d, d, 0) \/ Begin("del", d, d, 0))
Next == Start \/ Clean \/ Build \/ End
Spec == Init /\ [][Next]_vars
NeverTwice == ~bad
\* the tag tells what is in the storage, and nothing is left in a slot that is gone
TagTrue == pc = Idle => \A i \in Slots : (tag[i] = "b" <=> mem[i] # <<>>) /\ (~there[i] => mem[i] = <<>>)
\* every finished operation (last, begun in ab) is one Maybe allows
Allowed == pc = Idle /\ last # <<>> => View \in Results(ab, last[1], last[2], last[3], <<"b", last[4]>>, last[5] = "err")
=============================================================================
