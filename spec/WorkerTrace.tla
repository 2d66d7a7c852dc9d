---------------------------- MODULE WorkerTrace ----------------------------
(***************************************************************************)
(* The worker of size n0 (C12). A task is accepted during its Run call,    *)
(* not later than its function or deferred function begins or Run returns, *)
(* and settled when its deferred function has returned.                    *)
(***************************************************************************)
EXTENDS CtxDone, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES op, t, l
vars == <<begun, done, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ op = <<>> /\ CtxInit

Unsettled(f) == {i \in DOMAIN f : f[i].acc /\ f[i].d # "ran"}
Bounded(f) == Cardinality(Unsettled(f)) <= H[t].n0

Call == /\ op' = op @@ (Ev.id :> [c |-> Ev.c, pre |-> Ev.c \in done, acc |-> FALSE, fn |-> "none", d |-> "none", ret |-> FALSE])
        /\ UNCHANGED <<begun, done>>
Step(o) == /\ op' = [op EXCEPT ![Ev.id] = [o EXCEPT !.acc = TRUE]]
           /\ Bounded(op') /\ UNCHANGED <<begun, done>>

\* at most once, never if the context was done before Run
Begin == LET o == op[Ev.id] IN o.fn = "none" /\ ~o.pre /\ Step([o EXCEPT !.fn = "running"])
End == LET o == op[Ev.id] IN o.fn = "running" /\ Step([o EXCEPT !.fn = "ended"])
\* once, when the function has ended or the context is done
DBegin == LET o == op[Ev.id] IN
          o.d = "none" /\ (o.fn = "ended" \/ o.c \in begun) /\ Step([o EXCEPT !.d = "running"])
DEnd == LET o == op[Ev.id] IN o.d = "running" /\ Step([o EXCEPT !.d = "ran"])
Ret == LET o == op[Ev.id] IN ~o.ret /\ Step([o EXCEPT !.ret = TRUE])

\* no time passes while a Run could go on, a function could begin or a task settle
Timely == /\ \A i \in DOMAIN op : LET o == op[i] IN
               /\ ~o.ret => Cardinality(Unsettled(op)) >= H[t].n0
               /\ (o.acc /\ o.d # "ran") => o.fn = "running" /\ o.c \notin done
Jump == H[t].clock /\ l > 1 /\ Ev.e # "end" /\ Ev.now > H[t].h[l-1].now + 1

Complete(o) == /\ o.ret /\ o.d = "ran" /\ o.fn # "running"
               /\ o.c \notin begun => o.fn = "ended"

Consume ==
  CASE Ev.e = "cx" -> CancelBegin(Ev.c) /\ UNCHANGED op
    [] Ev.e = "cxe" -> CancelEnd(Ev.c) /\ UNCHANGED op
    [] Ev.e = "call" -> Call
    [] Ev.e = "begin" -> Begin
    [] Ev.e = "fend" -> End
    [] Ev.e = "dbegin" -> DBegin
    [] Ev.e = "dend" -> DEnd
    [] Ev.e = "ret" -> Ret
    [] Ev.e = "end" -> Ev.st = "done" /\ (\A i \in DOMAIN op : Complete(op[i])) /\ UNCHANGED <<begun, done, op>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Jump => Timely
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
