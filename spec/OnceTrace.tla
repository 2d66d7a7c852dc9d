----------------------------- MODULE OnceTrace -----------------------------
(* The write-once value and the write-once channel (C07).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
None == -1
VARIABLES val,      \* the winning value, or None
          taken,    \* channel: the value has been delivered
          op, t, l
vars == <<val, taken, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ val = None /\ taken = FALSE /\ op = <<>>

Drop(id) == op' = [i \in DOMAIN op \ {id} |-> op[i]]
Done(id, v, ok) == op' = [op EXCEPT ![id].lin = TRUE, ![id].rv = v, ![id].ok = ok]
Lin(id) ==
  LET o == op[id] IN
  /\ ~o.lin
  /\ CASE o.m = "Write" -> /\ val' = IF val = None THEN o.v ELSE val
                           /\ Done(id, 0, val = None) /\ UNCHANGED taken
       [] o.m = "Read"  -> Done(id, val, TRUE) /\ UNCHANGED <<val, taken>>
       \* a receiver waits for the winner, takes it once, and then sees the end
       [] o.m = "Recv"  -> /\ val # None
                           /\ taken' = TRUE
                           /\ IF taken THEN Done(id, None, FALSE) ELSE Done(id, val, TRUE)
                           /\ UNCHANGED val
       [] OTHER -> FALSE

Consume ==
  CASE Ev.e = "call" -> /\ op' = op @@ (Ev.id :> [m |-> Ev.m, v |-> Ev.v, lin |-> FALSE, rv |-> None, ok |-> FALSE])
                        /\ UNCHANGED <<val, taken>>
    [] Ev.e = "ret"  -> op[Ev.id].lin /\ op[Ev.id].rv = Ev.v /\ op[Ev.id].ok = Ev.ok /\ Drop(Ev.id) /\ UNCHANGED <<val, taken>>
    [] Ev.e = "end"  -> Ev.st = "done" /\ DOMAIN op = {} /\ UNCHANGED <<val, taken, op>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ Ev.e # "call" /\ ~ENABLED Consume /\ (\E id \in DOMAIN op : Lin(id)) /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
