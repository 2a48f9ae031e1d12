----------------------------- MODULE MCPairTable -----------------------------
(* Filling the table of distances of every pair: each row of the upper triangle is one work
   item, given to any of the workers at any time; its cells are written one after the other,
   each with its mirror image, while other rows are being written. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Items, Workers
VARIABLES todo, row, col, table, writes
vars == <<todo, row, col, table, writes>>
I == 1..Items
D(i, j) == IF i < j THEN j - i ELSE i - j
Init == todo = I /\ row = [w \in 1..Workers |-> 0] /\ col = [w \in 1..Workers |-> 0] /\ table = [p \in I \X I |-> -1] /\ writes = [p \in I \X I |-> 0]
Start(w) == row[w] = 0 /\ \E i \in todo : todo' = todo \ {i} /\ row' = [row EXCEPT ![w] = i] /\ col' = [col EXCEPT ![w] = i] /\ UNCHANGED <<table, writes>>
Fill(w) == /\ row[w] # 0
           /\ LET i == row[w]
                  j == col[w] IN
              /\ table' = [table EXCEPT ![i, j] = D(i, j), ![j, i] = D(i, j)]
              /\ writes' = [p \in I \X I |-> writes[p] + (IF p \in {<<i, j>>, <<j, i>>} THEN 1 ELSE 0)]
              /\ IF j = Items THEN row' = [row EXCEPT ![w] = 0] /\ col' = col ELSE row' = row /\ col' = [col EXCEPT ![w] = j + 1]
           /\ todo' = todo
Next == \E w \in 1..Workers : Start(w) \/ Fill(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneWriter == \A p \in I \X I : writes[p] <= 1
Over == todo = {} /\ \A w \in 1..Workers : row[w] = 0
Full == Over => \A p \in I \X I : table[p] = D(p[1], p[2])
Ends == <>Over
=============================================================================
