--------------------------- MODULE BarrierTrace ----------------------------
(***************************************************************************)
(* Reads and writes through barriers (C13) on one channel, a FIFO queue.   *)
(* b marks operations through the barrier: they fail only when the context *)
(* is done, and always when it was done before the call; a closed channel  *)
(* yields nil. (The capacity is not modelled: a queue without bound allows *)
(* every behaviour of a bounded one.)                                      *)
(***************************************************************************)
EXTENDS CtxDone, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES q, closed, op, t, l
vars == <<begun, done, q, closed, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ op = <<>> /\ q = <<>> /\ closed = FALSE /\ CtxInit

Same == UNCHANGED <<begun, done>>
Drop(id) == op' = [i \in DOMAIN op \ {id} |-> op[i]]
Call == /\ op' = op @@ (Ev.id :> [m |-> Ev.m, v |-> Ev.v, b |-> Ev.b, pre |-> Ev.b /\ 0 \in done, lin |-> FALSE, rv |-> -1, ok |-> FALSE])
        /\ UNCHANGED <<q, closed>> /\ Same

Done(id, v, ok) == op' = [op EXCEPT ![id].lin = TRUE, ![id].rv = v, ![id].ok = ok]
Lin(id) ==
  LET o == op[id] IN
  /\ ~o.lin /\ ~o.pre
  /\ CASE o.m = "Put" -> q' = Append(q, o.v) /\ Done(id, -1, TRUE)
       [] q # <<>> -> q' = Tail(q) /\ Done(id, Head(q), TRUE)
       [] closed -> UNCHANGED q /\ IF o.b THEN Done(id, 0, TRUE) ELSE Done(id, -1, FALSE)
       [] OTHER -> FALSE
  /\ UNCHANGED closed /\ Same

Ret == LET o == op[Ev.id] IN
       /\ \/ o.lin /\ o.rv = Ev.v /\ o.ok = Ev.ok
          \/ ~o.lin /\ o.b /\ 0 \in begun /\ ~Ev.ok /\ Ev.v = -1
       /\ Drop(Ev.id) /\ UNCHANGED <<q, closed>> /\ Same

Consume ==
  CASE Ev.e = "cx" -> CancelBegin(Ev.c) /\ UNCHANGED <<op, q, closed>>
    [] Ev.e = "cxe" -> CancelEnd(Ev.c) /\ UNCHANGED <<op, q, closed>>
    [] Ev.e = "call" -> Call
    [] Ev.e = "ret" -> Ret
    [] Ev.e = "giveup" -> ~op[Ev.id].lin /\ Drop(Ev.id) /\ UNCHANGED <<q, closed>> /\ Same
    [] Ev.e = "empty" -> ~op[Ev.id].lin /\ q = <<>> /\ Drop(Ev.id) /\ UNCHANGED <<q, closed>> /\ Same
    [] Ev.e = "close" -> closed' = TRUE /\ UNCHANGED <<op, q>> /\ Same
    [] Ev.e = "end" -> Ev.st = "done" /\ DOMAIN op = {} /\ q = <<>> /\ UNCHANGED <<op, q, closed>> /\ Same
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ Ev.e # "call" /\ ~ENABLED Consume /\ (\E id \in DOMAIN op : Lin(id)) /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
