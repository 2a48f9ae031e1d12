------------------------------- MODULE MCStream -------------------------------
(* The loops around a streaming compressor: a call produces output into a buffer of B items
   (as much or as little as it likes while compressing; until input or buffer end while
   decompressing). Whatever it does per call, compression collects all output in order, and
   decompression either gives all N items of a whole stream or an error; it ends. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, B
VARIABLES mode,   \* "deflate" or "inflate"
          given,  \* inflate: items of the stream that are there (N + 1: with its end)
          fed,    \* deflate: input items taken
          made,   \* items produced by the codec so far
          tmp, buf, ret, done
vars == <<mode, given, fed, made, tmp, buf, ret, done>>
Items(a, b) == [i \in 1..(b - a) |-> a + i]
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ mode \in {"deflate", "inflate"} /\ given \in 0..(N + 1) /\ (mode = "deflate" => given = N + 1)
        /\ fed = 0 /\ made = 0 /\ tmp = <<>> /\ buf = <<>> /\ ret = "OK" /\ done = FALSE
\* one round of the loop of DecompressBytes
Inflate == /\ mode = "inflate" /\ ~done
           /\ LET k == Min2(B, Min2(given, N) - made) IN
              /\ made' = made + k /\ buf' = buf \o Items(made, made + k)
              /\ \/ ret' = "END" /\ given = N + 1 /\ made' = N
                 \/ ret' = "OK" /\ k > 0 /\ (given = N + 1 /\ made' = N => k = B) \* the end may be seen only by the next call
                 \/ ret' = "BUF" /\ k = 0 /\ ~(given = N + 1 /\ made' = N)
              /\ done' = (ret' # "OK")
           /\ UNCHANGED <<mode, given, fed, tmp>>
\* rounds of CompressBytes: taking input, then finishing
Spill(t) == IF Len(t) = B THEN [t |-> <<>>, b |-> t] ELSE [t |-> t, b |-> <<>>]
Deflate == /\ mode = "deflate" /\ ~done /\ fed < N
           /\ \E f \in (fed + 1)..N : \E k \in 0..Min2(B - Len(tmp), f - made) :
                /\ fed' = f /\ made' = made + k
                /\ LET s == Spill(tmp \o Items(made, made + k)) IN tmp' = s.t /\ buf' = buf \o s.b
           /\ UNCHANGED <<mode, given, ret, done>>
Finish == /\ mode = "deflate" /\ ~done /\ fed = N
          /\ LET s == Spill(tmp) k == Min2(B - Len(s.t), N - made) t == s.t \o Items(made, made + k) IN
             /\ made' = made + k /\ ret' = (IF made' = N THEN "END" ELSE "OK")
             /\ IF ret' = "END" THEN buf' = buf \o s.b \o t /\ tmp' = <<>> /\ done' = TRUE
                ELSE buf' = buf \o s.b /\ tmp' = t /\ done' = FALSE
          /\ UNCHANGED <<mode, given, fed>>
Next == Inflate \/ Deflate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == done /\ ret = "END" => buf = Items(0, N)
CutIsError == done /\ given <= N => ret = "BUF"
WholeIsFine == done /\ given = N + 1 => ret = "END"
Ends == <>done
=============================================================================
