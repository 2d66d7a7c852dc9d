----------------------------- MODULE RingTrace -----------------------------
(* The ring of capacity n0 (C08): a sequence of the last n0 added values.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ring, op, t, l
vars == <<ring, op, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ ring = <<>> /\ op = <<>>

Drop(id) == op' = [i \in DOMAIN op \ {id} |-> op[i]]
Push(s, v) == IF Len(s) < H[t].n0 THEN Append(s, v) ELSE Append(Tail(s), v)
\* n Adds in a row, with nothing else going on
PushMany(s, v, n) ==
  LET c == H[t].n0
      k == IF n < c THEN n ELSE c
      keep == IF Len(s) + k <= c THEN s ELSE SubSeq(s, Len(s) + k - c + 1, Len(s))
  IN keep \o [i \in 1..k |-> v + n - k + i - 1]
Lin(id) ==
  LET o == op[id] IN
  /\ ~o.lin
  /\ IF o.m = "Add"
     THEN ring' = Push(ring, o.v) /\ op' = [op EXCEPT ![id].lin = TRUE]
     ELSE UNCHANGED ring /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].rv = ring]

Consume ==
  CASE Ev.e = "call" -> op' = op @@ (Ev.id :> [m |-> Ev.m, v |-> Ev.v, lin |-> FALSE, rv |-> <<>>]) /\ UNCHANGED ring
    [] Ev.e = "many" -> op = <<>> /\ ring' = PushMany(ring, 1000000 + Ev.id * 50000, Ev.n) /\ UNCHANGED op
    [] Ev.e = "ret"  -> op[Ev.id].lin /\ op[Ev.id].rv = Ev.vs /\ Drop(Ev.id) /\ UNCHANGED ring
    [] Ev.e = "end"  -> Ev.st = "done" /\ DOMAIN op = {} /\ UNCHANGED <<ring, op>>
    [] OTHER -> FALSE      \* "changed": a returned slice was altered later

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ Ev.e # "call" /\ ~ENABLED Consume /\ (\E id \in DOMAIN op : Lin(id)) /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
