----------------------------- MODULE WalkTrace -----------------------------
(***************************************************************************)
(* Parallel stream stages (C17).  calls: the arguments the function must   *)
(* be called with, in input order; n0: the number of workers; 0 is nil.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES todo,     \* arguments not yet called with, in input order
          run,      \* arguments of the running calls (a sequence used as a bag)
          pend,     \* emitted values not yet delivered, in order of emission
          oend, t, l
vars == <<todo, run, pend, oend, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ todo = H[t].calls /\ run = <<>> /\ pend = <<>> /\ oend = FALSE

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
First(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..i-1 : s[j] # x
In(x, s) == \E i \in DOMAIN s : s[i] = x
One == H[t].n0 = 1

Consume ==
  CASE Ev.e = "fb" -> /\ In(Ev.x, todo) /\ ~oend
                      /\ One => todo[1] = Ev.x
                      /\ Len(run) < H[t].n0
                      /\ todo' = Without(todo, First(todo, Ev.x)) /\ run' = Append(run, Ev.x)
                      /\ UNCHANGED <<pend, oend>>
    [] Ev.e = "fe" -> In(Ev.x, run) /\ run' = Without(run, First(run, Ev.x)) /\ UNCHANGED <<todo, pend, oend>>
    [] Ev.e = "em" -> In(Ev.x, run) /\ pend' = Append(pend, Ev.v) /\ UNCHANGED <<todo, run, oend>>
    [] Ev.e = "out" -> /\ In(Ev.v, pend) /\ ~oend
                       /\ One => pend[1] = Ev.v
                       /\ pend' = Without(pend, First(pend, Ev.v)) /\ UNCHANGED <<todo, run, oend>>
    [] Ev.e = "oend" -> todo = <<>> /\ run = <<>> /\ pend = <<>> /\ oend' = TRUE /\ UNCHANGED <<todo, run, pend>>
    [] Ev.e = "end" -> Ev.st # "crash" /\ oend /\ UNCHANGED <<todo, run, pend, oend>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
