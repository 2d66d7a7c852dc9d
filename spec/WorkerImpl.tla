---------------------------- MODULE WorkerImpl ----------------------------
(***************************************************************************)
(* Design of the worker: Run takes one of Size slots and then starts a     *)
(* goroutine; this looks at the context, runs the function beside itself,  *)
(* waits for it or for the context, runs the deferred function and gives   *)
(* the slot back. A function may go on after its context is done.          *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, Size, Bug
Tasks == 1..N
VARIABLES ctx, pre,   \* contexts done; done before Run was called
          run,        \* Run: "idle" "called" "go" "back"
          slots,      \* slots taken
          sup,        \* the goroutine: "none" "take" "check" "wait" "defer" "free" "over"
          fn,         \* the function: "none" "run" "ended"
          ds, wrong   \* executions of the deferred function; a function ran that must not
vars == <<ctx, pre, run, slots, sup, fn, ds, wrong>>
Init == /\ ctx = [i \in Tasks |-> FALSE] /\ pre = ctx /\ run = [i \in Tasks |-> "idle"] /\ slots = 0
        /\ sup = [i \in Tasks |-> "none"] /\ fn = sup /\ ds = [i \in Tasks |-> 0] /\ wrong = FALSE
Cancel(i) == ~ctx[i] /\ ctx' = [ctx EXCEPT ![i] = TRUE] /\ UNCHANGED <<pre, run, slots, sup, fn, ds, wrong>>
Run(i) ==
  /\ UNCHANGED <<ctx, fn, ds, wrong>>
  /\ \/ /\ run[i] = "idle" /\ run' = [run EXCEPT ![i] = "called"] /\ pre' = [pre EXCEPT ![i] = ctx[i]] /\ UNCHANGED <<slots, sup>>
     \* Bug 1: the goroutine takes the slot
     \/ /\ run[i] = "called" /\ (Bug = 1 \/ slots < Size) /\ slots' = (IF Bug = 1 THEN slots ELSE slots + 1)
        /\ run' = [run EXCEPT ![i] = "go"] /\ UNCHANGED <<pre, sup>>
     \/ /\ run[i] = "go" /\ sup' = [sup EXCEPT ![i] = IF Bug = 1 THEN "take" ELSE "check"]
        /\ run' = [run EXCEPT ![i] = "back"] /\ UNCHANGED <<pre, slots>>
Goroutine(i) ==
  LET to(x) == sup' = [sup EXCEPT ![i] = x] IN
  /\ UNCHANGED <<ctx, pre, run>>
  /\ \/ /\ sup[i] = "take" /\ slots < Size /\ slots' = slots + 1 /\ to("check") /\ UNCHANGED <<fn, ds, wrong>>
     \/ /\ sup[i] = "check" /\ ctx[i] /\ to("defer") /\ UNCHANGED <<slots, fn, ds, wrong>>
     \/ /\ sup[i] = "check" /\ ~ctx[i] /\ fn' = [fn EXCEPT ![i] = "run"] /\ wrong' = (wrong \/ pre[i])
        /\ to("wait") /\ UNCHANGED <<slots, ds>>
     \/ /\ sup[i] = "wait" /\ (fn[i] = "ended" \/ ctx[i])
        \* Bug 2: the slot is free before the deferred function has run
        /\ IF Bug = 2 THEN slots' = slots - 1 ELSE UNCHANGED slots
        /\ to("defer") /\ UNCHANGED <<fn, ds, wrong>>
     \/ /\ sup[i] = "defer" /\ ds' = [ds EXCEPT ![i] = @ + 1] /\ to("free") /\ UNCHANGED <<slots, fn, wrong>>
     \* Bug 3: a task whose function never ran keeps its slot
     \/ /\ sup[i] = "free" /\ slots' = (IF (Bug = 3 /\ fn[i] = "none") \/ (Bug = 2 /\ fn[i] # "none") THEN slots ELSE slots - 1)
        /\ to("over") /\ UNCHANGED <<fn, ds, wrong>>
\* a function ends by itself, or when its context is done
Function(i) == fn[i] = "run" /\ fn' = [fn EXCEPT ![i] = "ended"] /\ UNCHANGED <<ctx, pre, run, slots, sup, ds, wrong>>
Next == \E i \in Tasks : Cancel(i) \/ Run(i) \/ Goroutine(i) \/ Function(i)
\* a function whose context is not done does end; one whose context is done may stay for ever
Spec == Init /\ [][Next]_vars /\ \A i \in Tasks : SF_vars(Run(i)) /\ SF_vars(Goroutine(i)) /\ WF_vars(~ctx[i] /\ Function(i))

Accepted == {i \in Tasks : run[i] = "back" /\ ds[i] = 0}
Inv == /\ Cardinality(Accepted) <= Size
       /\ \A i \in Tasks : ds[i] <= 1
       /\ ~wrong
       /\ \A i \in Tasks : ds[i] = 1 => fn[i] = "ended" \/ ctx[i]
       /\ slots <= Size
\* every task is accepted and settled in the end, and all slots come back
Done == <>(\A i \in Tasks : run[i] = "back" /\ sup[i] = "over" /\ slots = 0)
=============================================================================
