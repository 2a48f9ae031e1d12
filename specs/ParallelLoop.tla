---------------------------- MODULE ParallelLoop ----------------------------
(***************************************************************************)
(* What a parallel loop over the half-open range [lo, hi) with a requested *)
(* degree of parallelism may do, whatever backend or scheduling it uses.   *)
(* A work item is [a |-> first, b |-> one past last, t |-> thread number]. *)
(* The constant Focus selects which of the three properties is enforced    *)
(* ("all" for the model itself), so each check decides its own property.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT Focus
VARIABLES phase,     \* "idle" | "running" | "returned" | "raised" | "ended"
          lo, hi, deg,
          handed,    \* indices given to some work item so far
          running,   \* work items that are executing now
          finished,  \* indices whose work item ended normally
          thrown     \* indices whose work item ended by an exception
vars == <<phase, lo, hi, deg, handed, running, finished, thrown>>

Range(a, b) == a..(b - 1)
On(f) == Focus = "all" \/ Focus = f

InitLoop ==
  /\ phase = "idle" /\ lo = 0 /\ hi = 0 /\ deg = 1
  /\ handed = {} /\ running = {} /\ finished = {} /\ thrown = {}

Call(l, h, d) ==
  /\ phase = "idle" /\ l <= h /\ d >= 1
  /\ phase' = "running" /\ lo' = l /\ hi' = h /\ deg' = d
  /\ UNCHANGED <<handed, running, finished, thrown>>

\* C01: indices inside the range, each handed out at most once.
StartC01(a, b, t) == Range(a, b) \subseteq Range(lo, hi) /\ Range(a, b) \cap handed = {}
\* C02: a thread number below the degree, not held by a running item; never more
\* items at once than the degree.
StartC02(a, b, t) ==
  /\ t \in 0..(deg - 1)
  /\ \A r \in running : r.t # t
  /\ Cardinality(running) < deg
\* C01 and C03: nothing starts before the call or after it ended.
Start(a, b, t) ==
  /\ a <= b
  /\ (On("C01") \/ On("C03")) => phase = "running"
  /\ On("C01") => StartC01(a, b, t)
  /\ On("C02") => StartC02(a, b, t)
  /\ handed' = handed \cup Range(a, b)
  /\ running' = running \cup {[a |-> a, b |-> b, t |-> t]}
  /\ UNCHANGED <<phase, lo, hi, deg, finished, thrown>>

Finish(a, b, t) ==
  /\ [a |-> a, b |-> b, t |-> t] \in running
  /\ running' = running \ {[a |-> a, b |-> b, t |-> t]}
  /\ finished' = finished \cup Range(a, b)
  /\ UNCHANGED <<phase, lo, hi, deg, handed, thrown>>

\* The exception is identified by the first index of the item that threw it.
Fail(a, b, t) ==
  /\ [a |-> a, b |-> b, t |-> t] \in running
  /\ running' = running \ {[a |-> a, b |-> b, t |-> t]}
  /\ thrown' = thrown \cup {a}
  /\ UNCHANGED <<phase, lo, hi, deg, handed, finished>>

Return ==
  /\ phase = "running"
  /\ On("C01") => running = {} /\ (thrown = {} => finished = Range(lo, hi))
  /\ On("C03") => running = {} /\ thrown = {}
  /\ phase' = "returned"
  /\ UNCHANGED <<lo, hi, deg, handed, running, finished, thrown>>

Raise(x) ==
  /\ phase = "running"
  /\ On("C03") => x \in thrown /\ running = {}
  /\ (On("C01") /\ ~On("C03")) => thrown # {}
  /\ phase' = "raised"
  /\ UNCHANGED <<lo, hi, deg, handed, running, finished, thrown>>

\* A range that ends before it starts, or a degree below one: refused with an exception, nothing runs.
Refuse(l, h, d) ==
  /\ phase = "idle" /\ (h < l \/ d < 1)
  /\ phase' = "refused"
  /\ UNCHANGED <<lo, hi, deg, handed, running, finished, thrown>>

\* Some time after the loop ended.
End ==
  /\ phase \in {"returned", "raised", "refused"}
  /\ On("C03") => running = {}
  /\ phase' = "ended"
  /\ UNCHANGED <<lo, hi, deg, handed, running, finished, thrown>>

-----------------------------------------------------------------------------
CONSTANTS Los, Sizes, Degs
Next ==
  \/ \E l \in Los, n \in Sizes, d \in Degs : Call(l, l + n, d)
  \/ \E a \in lo..hi, b \in lo..hi, t \in 0..(deg - 1) : a < b /\ Start(a, b, t)
  \/ \E r \in running : Finish(r.a, r.b, r.t) \/ Fail(r.a, r.b, r.t)
  \/ Return
  \/ \E x \in thrown : Raise(x)
  \/ \E l \in Los, n \in {-1} \cup Sizes, d \in {0} \cup Degs : Refuse(l, l + n, d)
  \/ End
  \/ phase = "ended" /\ UNCHANGED vars

\* The user's work items end; the loop makes progress.
Progress ==
  /\ WF_vars(\E r \in running : Finish(r.a, r.b, r.t))
  /\ WF_vars(Return \/ \E x \in thrown : Raise(x))
  /\ WF_vars(phase = "running" /\ \E a \in lo..hi, b \in lo..hi, t \in 0..(deg - 1) : a < b /\ Start(a, b, t))
  /\ WF_vars(End)
Spec == InitLoop /\ [][Next]_vars
LiveSpec == Spec /\ Progress

\* Properties, stated independently of the action guards.
ExactlyOnce ==
  phase \in {"returned", "ended"} /\ thrown = {} => finished = Range(lo, hi)
NothingOutside == handed \subseteq Range(lo, hi)
ItemsDisjoint ==
  \A r, s \in running : r # s => Range(r.a, r.b) \cap Range(s.a, s.b) = {}
ThreadNumbersExclusive ==
  /\ \A r \in running : 0 <= r.t /\ r.t < deg
  /\ \A r, s \in running : r.t = s.t => r = s
  /\ Cardinality(running) <= deg
QuietWhenOver == phase \in {"returned", "raised", "ended"} => running = {}
ErrorsReported == phase = "returned" => thrown = {}
NoSpuriousError == phase = "raised" => thrown # {}
NothingRefused == phase = "refused" => handed = {} /\ finished = {} /\ thrown = {}
Over == phase \in {"returned", "raised", "refused", "ended"}
NothingAfterEnd == [][Over => (handed' = handed /\ running' = running /\ finished' = finished)]_vars
Terminates == phase = "running" ~> phase \in {"returned", "raised", "ended"}
=============================================================================
