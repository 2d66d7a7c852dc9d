----------------------------- MODULE ResTrace ------------------------------
(* Validates recorded histories of xsync.ResourceManager against ResSpec.   *)
EXTENDS ResSpec, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<held, mk, op, closed, made, lose, gone, bad, t, l>>

Ev == H[t].h[l]
Init == /\ t \in 1..Len(H) /\ l = 1
        /\ Init0(0..(H[t].nk - 1))

Consume ==
  CASE Ev.e \in {"cb", "ce", "ret"} /\ Ev.id \notin DOMAIN op -> FALSE
    [] Ev.e = "call" -> Call(Ev.id, Ev.m, Ev.k)
    [] Ev.e = "cb" -> CreateBegin(Ev.id, Ev.k)
    [] Ev.e = "ce" -> CreateEnd(Ev.id, Ev.k, Ev.ok, Ev.cf)
    [] Ev.e = "rclose" -> ResClose(Ev.r)
    [] Ev.e = "ret" -> CASE op[Ev.id].m = "Get" -> RetGet(Ev.id, Ev.v, Ev.err)
                         [] op[Ev.id].m = "Remove" -> RetRemove(Ev.id, Ev.ok)
                         [] OTHER -> RetClose(Ev.id, Ev.errs, Ev.nil)
    [] Ev.e = "end" -> Ev.st = "done" /\ Quiet /\ UNCHANGED rvars
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ /\ Ev.e # "call" /\ ~ENABLED Consume
              /\ \/ \E id \in DOMAIN op : Lin(id)
                 \/ \E k \in DOMAIN mk : Install(k)
              /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))

Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
