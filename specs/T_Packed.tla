------------------------------- MODULE T_Packed -------------------------------
(* Text encoding, compression, and compressed files. A packed string is known by the value
   that was packed; files hold a value (whole) or are absent, cut or damaged. Values are
   compared as recorded: short ones byte by byte, long ones by length and two checksums. *)
EXTENDS Bytes64, Json, IOUtils, TLC
VARIABLES c, l, f
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Step(e) ==
  CASE e.op = "enc" -> e.st = "ok" /\ e.text = Enc(e.bytes) /\ e.back = e.bytes
    [] e.op = "dec" -> e.text \in {Enc(e.bytes), Bare(Enc(e.bytes))} => e.st = "ok" /\ e.back = e.bytes
    [] e.op = "pack" -> \* compressed, decompressed again, and by another implementation of the format
         e.st = "ok" /\ e.back = e.v /\ e.peer = e.v
    [] e.op = "peerpack" -> e.st = "ok" /\ e.back = e.v \* decompressing what the other compressed
    [] e.op = "cut" -> \A i \in DOMAIN e.sts : e.sts[i] = "err"
    [] e.op = "spoil" -> e.st = "err" \/ (e.st = "ok" /\ e.back = e.v)
    [] e.op = "write" -> IF e.can THEN e.st = "ok" ELSE e.st = "err"
    [] e.op = "load" ->
         CASE f[e.i].is = "whole" -> e.st = "ok" /\ e.back = f[e.i].v
           [] f[e.i].is \in {"absent", "cut"} -> e.st = "err"
           [] f[e.i].is = "spoilt" -> e.st = "err" \/ (e.st = "ok" /\ e.back = f[e.i].v)
           [] OTHER -> TRUE
    [] e.op = "loadno" -> e.st = "err" \* a name that cannot be read
    [] OTHER -> TRUE
After(e) ==
  CASE e.op = "write" /\ e.i > 0 -> [f EXCEPT ![e.i] = IF e.can THEN [is |-> "whole", v |-> e.v] ELSE [is |-> "unknown", v |-> <<>>]]
    [] e.op = "remove" -> [f EXCEPT ![e.i] = [is |-> "absent", v |-> <<>>]]
    [] e.op = "cutfile" -> [f EXCEPT ![e.i] = IF @.is = "whole" THEN [@ EXCEPT !.is = "cut"] ELSE IF @.is = "spoilt" THEN [@ EXCEPT !.is = "unknown"] ELSE @]
    [] e.op = "spoilfile" -> [f EXCEPT ![e.i] = IF @.is = "whole" THEN [@ EXCEPT !.is = "spoilt"] ELSE IF @.is = "cut" THEN [@ EXCEPT !.is = "unknown"] ELSE @]
    [] OTHER -> f
TInit == c \in 1..Len(Cases) /\ l = 1 /\ f = [i \in 1..3 |-> [is |-> "absent", v |-> <<>>]]
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Is(Step(Ev[l])) /\ f' = After(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, f>>
TSpec == TInit /\ [][TNext]_<<c, l, f>>
=============================================================================
