------------------------------ MODULE StrTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the pure functions against StrSpec (C24-C28).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == H[t].h[l]
CharClass(c) == LET T == H[t].cls IN T[CHOOSE i \in DOMAIN T : T[i].c = c]
INSTANCE StrSpec WITH Cls <- CharClass
Init == t \in 1..Len(H) /\ l = 1

Consume == CASE Ev.e = "call" -> Ok(Ev)
             [] Ev.e = "num" -> NumOk(Ev)
             [] Ev.e = "end" -> Ev.st = "done"
             [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
