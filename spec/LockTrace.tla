----------------------------- MODULE LockTrace -----------------------------
(* The spin lock (C06): a lock with an exact TryLock. A Lock, TryLock or     *)
(* Unlock takes effect at one moment of its call; Lock only when it is free. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES held, op, t, l
vars == <<held, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ held = FALSE /\ op = <<>>

Drop(id) == op' = [i \in DOMAIN op \ {id} |-> op[i]]
Lin(id) ==
  /\ ~op[id].lin
  /\ CASE op[id].m = "Lock" -> ~held /\ held' = TRUE /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].ok = TRUE]
       [] op[id].m = "TryLock" -> held' = TRUE /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].ok = ~held]
       [] OTHER -> held' = FALSE /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].ok = TRUE]

Consume ==
  CASE Ev.e = "call" -> op' = op @@ (Ev.id :> [m |-> Ev.m, lin |-> FALSE, ok |-> FALSE]) /\ UNCHANGED held
    [] Ev.e = "ret"  -> op[Ev.id].lin /\ op[Ev.id].ok = Ev.ok /\ Drop(Ev.id) /\ UNCHANGED held
    [] Ev.e = "end"  -> Ev.st = "done" /\ DOMAIN op = {} /\ ~held /\ UNCHANGED <<held, op>>
    [] OTHER -> FALSE      \* "torn": two holders at once

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ Ev.e # "call" /\ ~ENABLED Consume /\ (\E id \in DOMAIN op : Lin(id)) /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
