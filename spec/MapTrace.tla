----------------------------- MODULE MapTrace -----------------------------
(* Validates recorded histories of xsync.Map against MapSpec. One initial   *)
(* state per history; silent linearization steps are taken only when the    *)
(* next event cannot be consumed as it stands (this loses no behaviour:     *)
(* a linearization can always be postponed to just before the first event   *)
(* that depends on it).                                                     *)
EXTENDS MapSpec, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<kv, op, t, l>>

Ev == H[t].h[l]
Init == /\ t \in 1..Len(H) /\ l = 1
        /\ kv = [k \in 0..(H[t].nk - 1) |-> None]
        /\ op = <<>>

Get(f, d) == IF f \in DOMAIN Ev THEN Ev[f] ELSE d

\* what the callbacks of operation id will compute
Future(id) == {<<H[t].h[i].v, H[t].h[i].r>> : i \in {j \in l..Len(H[t].h) : H[t].h[j].e = "cb" /\ H[t].h[j].id = id}}

Consume ==
  CASE Ev.e \in {"cb", "pan", "rcb", "ret"} /\ Ev.id \notin DOMAIN op -> FALSE
    [] Ev.e = "call" -> Call(Ev.id, Ev.m, Get("k", None), Get("v", None), Future(Ev.id))
    [] Ev.e = "cb"   -> Callback(Ev.id, Ev.k, Ev.v, Ev.r)
    [] Ev.e = "pan"  -> Panic(Ev.id)
    [] Ev.e = "rcb"  -> Visit(Ev.id, Ev.k, Ev.v, Ev.r)
    [] Ev.e = "ret"  -> Ret(Ev.id, Get("v", None), Get("ok", FALSE))
    [] Ev.e = "end"  -> Ev.st = "done" /\ DOMAIN op = {} /\ UNCHANGED mvars
    [] OTHER -> FALSE

\* operations whose pending step can matter to the next event
Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ /\ Ev.e # "call" /\ ~ENABLED Consume
              /\ \E id \in DOMAIN op : Lin(id)
              /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))

Spec == Init /\ [][Next]_vars
\* progress register for diagnosing a rejection
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
