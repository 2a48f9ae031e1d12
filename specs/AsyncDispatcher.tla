--------------------------- MODULE AsyncDispatcher ---------------------------
(* An implementable dynamic dispatcher: one main task that reaps finished   *)
(* workers, returns their thread numbers to a queue, dispatches one index   *)
(* per worker and otherwise sleeps until a worker says it is done. Shown    *)
(* here to refine ParallelLoop, to be free of lost wake-ups, and to end.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, T, FailSet
VARIABLES pc,          \* main task: "reap" | "dispatch" | "wait" | "done" | "unwind" | "raised"
          dispatched,  \* next index
          queue,       \* free thread numbers
          active,      \* futures held by main: set of [i, t]
          wk,          \* worker state by index: "none" | "run" | "notified" | "ready"
          failed,      \* indices whose worker threw
          live,        \* number of live workers (guarded by the mutex)
          err          \* index whose exception main picked up
vars == <<pc, dispatched, queue, active, wk, failed, live, err>>
Idx == 0..(N - 1)
Init == /\ pc = "reap" /\ dispatched = 0 /\ queue = [k \in 1..T |-> k - 1] /\ active = {}
        /\ wk = [i \in Idx |-> "none"] /\ failed = {} /\ live = 0 /\ err = -1
\* Reap one ready worker, or go on when none is ready.
Reap == /\ pc = "reap"
        /\ \/ \E w \in active :
                /\ wk[w.i] = "ready"
                /\ active' = active \ {w}
                /\ IF w.i \in failed
                   THEN pc' = "unwind" /\ err' = w.i /\ UNCHANGED queue
                   ELSE queue' = Append(queue, w.t) /\ UNCHANGED <<pc, err>>
                /\ UNCHANGED <<dispatched, wk, failed, live>>
           \/ /\ \A w \in active : wk[w.i] # "ready"
              /\ pc' = "dispatch" /\ UNCHANGED <<dispatched, queue, active, wk, failed, live, err>>
Dispatch ==
  /\ pc = "dispatch"
  /\ IF Cardinality(active) < T /\ dispatched < N
     THEN /\ Len(queue) > 0
          /\ active' = active \cup {[i |-> dispatched, t |-> Head(queue)]}
          /\ queue' = Tail(queue) /\ live' = live + 1
          /\ wk' = [wk EXCEPT ![dispatched] = "run"] /\ dispatched' = dispatched + 1
          /\ UNCHANGED <<pc, failed, err>>
     ELSE /\ pc' = IF active = {} THEN (IF dispatched = N THEN "done" ELSE "reap") ELSE "wait"
          /\ UNCHANGED <<dispatched, queue, active, wk, failed, live, err>>
Wait == /\ pc = "wait" /\ live < Cardinality(active) /\ pc' = "reap"
        /\ UNCHANGED <<dispatched, queue, active, wk, failed, live, err>>
\* The exception leaves main: destroying each future waits for its worker.
Unwind == /\ pc = "unwind"
          /\ \/ \E w \in active : wk[w.i] = "ready" /\ active' = active \ {w} /\ UNCHANGED pc
             \/ active = {} /\ pc' = "raised" /\ UNCHANGED active
          /\ UNCHANGED <<dispatched, queue, wk, failed, live, err>>
Notify(i) == /\ wk[i] = "run" /\ live' = live - 1
             /\ wk' = [wk EXCEPT ![i] = "notified"]
             /\ failed' = IF i \in FailSet THEN failed \cup {i} ELSE failed
             /\ UNCHANGED <<pc, dispatched, queue, active, err>>
Ready(i) == /\ wk[i] = "notified" /\ wk' = [wk EXCEPT ![i] = "ready"]
            /\ UNCHANGED <<pc, dispatched, queue, active, failed, live, err>>
Over == pc \in {"done", "raised"} /\ UNCHANGED vars
Next == Reap \/ Dispatch \/ Wait \/ Unwind \/ (\E i \in Idx : Notify(i) \/ Ready(i)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Reap \/ Dispatch \/ Wait \/ Unwind)
             /\ \A i \in Idx : WF_vars(Notify(i)) /\ WF_vars(Ready(i))
\* Refinement: the work item of an index is running from dispatch to its notification.
HeldBy(i) == IF \E w \in active : w.i = i THEN (CHOOSE w \in active : w.i = i).t ELSE -1
PL == INSTANCE ParallelLoop WITH
  Focus <- "all", Los <- {0}, Sizes <- {N}, Degs <- {T},
  phase <- CASE pc = "done" -> "returned" [] pc = "raised" -> "raised" [] OTHER -> "running",
  lo <- 0, hi <- N, deg <- T,
  handed <- {i \in Idx : wk[i] # "none"},
  running <- {[a |-> i, b |-> i + 1, t |-> HeldBy(i)] : i \in {j \in Idx : wk[j] = "run"}},
  finished <- {i \in Idx : wk[i] \in {"notified", "ready"} /\ i \notin failed},
  thrown <- failed
Refines == [][PL!Next]_(PL!vars)
QueueEnough == pc = "dispatch" /\ Cardinality(active) < T /\ dispatched < N => Len(queue) > 0
Terminates == <>(pc \in {"done", "raised"})
ErrIffFailure == pc = "done" => failed = {}
=============================================================================
