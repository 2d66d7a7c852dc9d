------------------------------ MODULE DoTrace ------------------------------
(***************************************************************************)
(* Running a task under a context (C10). For each call: the task           *)
(* (none -> running -> ended with r), the deferred function (none ->       *)
(* running -> ran) and what was known of the context at the call.          *)
(***************************************************************************)
EXTENDS CtxDone, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES op, t, l
vars == <<begun, done, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ op = <<>> /\ CtxInit

Boom == -3
CtxErr == -1
Either == -4   \* the task's error, which is that of the context as well

Call == /\ op' = op @@ (Ev.id :> [c |-> Ev.c, hasD |-> Ev.d, pre |-> Ev.pre \/ Ev.c \in done,
                                  wait |-> Ev.wait, at |-> IF H[t].clock THEN Ev.now ELSE 0,
                                  task |-> "none", r |-> 0, d |-> "none", over |-> FALSE])
        /\ UNCHANGED <<begun, done>>

Upd(f, v) == op' = [op EXCEPT ![Ev.id][f] = v] /\ UNCHANGED <<begun, done>>

\* no time passes while a call could go on: it has not begun its task, or the outcome is known
Timely(at) == \A i \in {j \in DOMAIN op : ~op[j].over} :
  LET o == op[i] IN /\ ~o.pre /\ o.task = "running" /\ o.c \notin done
                    /\ o.c >= 100 => at <= o.at + o.wait + 1
Jump == H[t].clock /\ l > 1 /\ Ev.e # "end" /\ Ev.now > H[t].h[l-1].now + 1

\* a timeout has its own context: done once the time has passed ("late")
MayBeDone(o, late) == o.c \in begun \/ o.pre \/ (o.c >= 100 /\ late)

\* never if the context was already done, and once; a started task may get to run
\* only after the call has ended with the context
Begin == LET o == op[Ev.id] IN o.task = "none" /\ ~o.pre /\ Upd("task", "running")
End == /\ op[Ev.id].task = "running"
       /\ op' = [op EXCEPT ![Ev.id].task = "ended", ![Ev.id].r = Ev.r]
       /\ UNCHANGED <<begun, done>>
\* once, after the outcome is known and before the call ends
DBegin == LET o == op[Ev.id] IN
          /\ o.hasD /\ o.d = "none" /\ ~o.over
          /\ o.task = "ended" \/ MayBeDone(o, Ev.late)
          /\ Upd("d", "running")
DEnd == op[Ev.id].d = "running" /\ Upd("d", "ran")
Deferred(o) == o.hasD => o.d = "ran"

Ret == LET o == op[Ev.id] IN
       /\ ~o.over /\ Deferred(o)
       /\ \/ o.task = "ended" /\ o.r # Boom /\ Ev.r = o.r
          \/ Ev.r = CtxErr /\ MayBeDone(o, Ev.late)
          \/ Ev.r = Either /\ (o.task = "ended" \/ MayBeDone(o, Ev.late))
       /\ Upd("over", TRUE)
Raise == LET o == op[Ev.id] IN
         /\ ~o.over /\ Deferred(o)
         /\ o.task = "ended" /\ o.r = Boom /\ Ev.own
         /\ Upd("over", TRUE)

Consume ==
  CASE Ev.e = "cx" -> CancelBegin(Ev.c) /\ UNCHANGED op
    [] Ev.e = "cxe" -> CancelEnd(Ev.c) /\ UNCHANGED op
    [] Ev.e = "call" -> Call
    [] Ev.e = "begin" -> Begin
    [] Ev.e = "fend" -> End
    [] Ev.e = "dbegin" -> DBegin
    [] Ev.e = "dend" -> DEnd
    [] Ev.e = "ret" -> Ret
    [] Ev.e = "pan" -> Raise
    \* nothing is left running or blocked
    [] Ev.e = "end" -> /\ Ev.st = "done" /\ \A i \in DOMAIN op : op[i].over /\ op[i].task # "running"
                       /\ UNCHANGED <<begun, done, op>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Jump => Timely(Ev.now)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
