----------------------------- MODULE PoolTrace -----------------------------
(* The byte-slice pool (C09): own maps each handed-out slice to the memory   *)
(* [lo, hi) of its full capacity; no two overlap.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES own, op, t, l
vars == <<own, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ own = <<>> /\ op = <<>>

Max(a, b) == IF a > b THEN a ELSE b
Overlap(i, j) == i[1] < j[2] /\ j[1] < i[2]

Consume ==
  CASE Ev.e = "call" -> op' = op @@ (Ev.id :> <<Ev.size, Ev.cap>>) /\ UNCHANGED own
    [] Ev.e = "ret"  -> LET q == op[Ev.id] IN
                        /\ Ev.len = q[1] /\ Ev.cap >= Max(q[1], q[2])
                        /\ \A i \in DOMAIN own : ~Overlap(own[i], <<Ev.lo, Ev.hi>>)
                        /\ own' = own @@ (Ev.id :> <<Ev.lo, Ev.hi>>)
                        /\ op' = [i \in DOMAIN op \ {Ev.id} |-> op[i]]
    [] Ev.e = "free" -> own' = [i \in DOMAIN own \ {Ev.id} |-> own[i]] /\ UNCHANGED op
    [] Ev.e = "freed" -> UNCHANGED <<own, op>>
    [] Ev.e = "end"  -> Ev.st = "done" /\ DOMAIN op = {} /\ UNCHANGED <<own, op>>
    [] OTHER -> FALSE      \* "corrupt": somebody wrote to memory that has an owner

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
