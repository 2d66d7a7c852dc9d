------------------------------- MODULE DoImpl -------------------------------
(***************************************************************************)
(* Design of xtask.Do: the caller looks at the context, starts the task in *)
(* a goroutine of its own and waits for its result, its panic or the       *)
(* context; the deferred function runs last. Each call has a context; all  *)
(* calls run side by side. The invariants are the conditions of DoTrace,   *)
(* the temporal property says that nothing stays behind.                   *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS N, Bug
Calls == 1..N
Results == {"nil", "err", "boom"}

VARIABLES ctx,     \* [Calls -> the context is done]
          pre,     \* it was done when the call began
          caller,  \* "idle" "check" "start" "wait" "defer" "over"
          out,     \* what the call is going to return
          task,    \* "none" "ready" "run" "send" "gone"
          res,     \* what the task ended with
          chan,    \* what is in the channel of results: "none" or a result
          runs, ds,\* executions of the task and of the deferred function
          alone    \* a task was started although the context had been done before the call
vars == <<ctx, pre, caller, out, task, res, chan, runs, ds, alone>>

Init == /\ ctx = [i \in Calls |-> FALSE] /\ pre = [i \in Calls |-> FALSE]
        /\ caller = [i \in Calls |-> "idle"] /\ out = [i \in Calls |-> "none"]
        /\ task = [i \in Calls |-> "none"] /\ res = [i \in Calls |-> "none"] /\ chan = [i \in Calls |-> "none"]
        /\ runs = [i \in Calls |-> 0] /\ ds = [i \in Calls |-> 0] /\ alone = FALSE

Set(f, i, v) == [f EXCEPT ![i] = v]

Cancel(i) == /\ ~ctx[i] /\ ctx' = Set(ctx, i, TRUE)
             /\ UNCHANGED <<pre, caller, out, task, res, chan, runs, ds, alone>>

Caller(i) ==
  /\ UNCHANGED <<ctx, res, runs>>
  /\ \/ /\ caller[i] = "idle" /\ pre' = Set(pre, i, ctx[i])
        /\ caller' = Set(caller, i, IF Bug = 2 THEN "start" ELSE "check")
        /\ UNCHANGED <<out, task, chan, ds, alone>>
     \/ /\ caller[i] = "check" /\ ctx[i] /\ out' = Set(out, i, "ctx")
        /\ caller' = Set(caller, i, IF Bug = 3 THEN "over" ELSE "defer")
        /\ UNCHANGED <<pre, task, chan, ds, alone>>
     \/ /\ caller[i] = "check" /\ ~ctx[i] /\ caller' = Set(caller, i, "start")
        /\ UNCHANGED <<pre, out, task, chan, ds, alone>>
     \/ /\ caller[i] = "start" /\ task' = Set(task, i, "ready") /\ caller' = Set(caller, i, "wait")
        /\ alone' = (alone \/ pre[i])
        /\ UNCHANGED <<pre, out, chan, ds>>
     \* the result: from the buffer, or handed over (Bug 1: the channel has no buffer)
     \/ /\ caller[i] = "wait" /\ chan[i] # "none" /\ out' = Set(out, i, chan[i]) /\ chan' = Set(chan, i, "none")
        /\ caller' = Set(caller, i, "defer") /\ UNCHANGED <<pre, task, ds, alone>>
     \/ /\ Bug = 1 /\ caller[i] = "wait" /\ task[i] = "send" /\ out' = Set(out, i, res[i]) /\ task' = Set(task, i, "gone")
        /\ caller' = Set(caller, i, "defer") /\ UNCHANGED <<pre, chan, ds, alone>>
     \/ /\ caller[i] = "wait" /\ ctx[i] /\ out' = Set(out, i, "ctx")
        /\ caller' = Set(caller, i, "defer") /\ UNCHANGED <<pre, task, chan, ds, alone>>
     \* Bug 4: the deferred function is not run when the task panicked
     \/ /\ caller[i] = "defer" /\ ds' = Set(ds, i, IF Bug = 4 /\ out[i] = "boom" THEN 0 ELSE ds[i] + 1)
        /\ caller' = Set(caller, i, "over") /\ UNCHANGED <<pre, out, task, chan, alone>>

Task(i) ==
  /\ UNCHANGED <<ctx, pre, caller, out, ds, alone>>
  /\ \/ /\ task[i] = "ready" /\ task' = Set(task, i, "run") /\ runs' = Set(runs, i, runs[i] + 1) /\ UNCHANGED <<res, chan>>
     \/ /\ task[i] = "run" /\ \E r \in Results : res' = Set(res, i, r)
        /\ task' = Set(task, i, "send") /\ UNCHANGED <<runs, chan>>
     \/ /\ task[i] = "send" /\ Bug # 1 /\ chan[i] = "none" /\ chan' = Set(chan, i, res[i]) /\ task' = Set(task, i, "gone")
        /\ UNCHANGED <<runs, res>>

Next == \E i \in Calls : Cancel(i) \/ Caller(i) \/ Task(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Calls : WF_vars(Caller(i)) /\ WF_vars(Task(i))

Over(i) == caller[i] = "over"
StartedOnce == \A i \in Calls : runs[i] <= 1
NotWhenDone == ~alone
Outcome == \A i \in Calls : out[i] # "none" => IF out[i] = "ctx" THEN ctx[i] ELSE out[i] = res[i]
DeferredOnce == \A i \in Calls : ds[i] = IF Over(i) THEN 1 ELSE 0
Inv == StartedOnce /\ NotWhenDone /\ Outcome /\ DeferredOnce

Returns == \A i \in Calls : <>Over(i)
Gone == <>[](\A i \in Calls : task[i] \in {"none", "gone"})
\* the call does not wait for the task once the context is done: it can go on by itself
Prompt == \A i \in Calls : caller[i] = "wait" /\ ctx[i] => ENABLED Caller(i)
=============================================================================
