---------------------------- MODULE SharedTrace ----------------------------
(* Validates recorded histories of xsync.SharedMap (C04): single-key        *)
(* operations are those of MapSpec; MStore and Clear act on each key at     *)
(* some moment of the call, Range is the Range of MapSpec over all shards.  *)
EXTENDS MapSpec, Sequences, SequencesExt, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<kv, op, t, l>>

Ev == H[t].h[l]
Init == /\ t \in 1..Len(H) /\ l = 1
        /\ kv = [k \in 0..(H[t].nk - 1) |-> None]
        /\ op = <<>>

Get(f, d) == IF f \in DOMAIN Ev THEN Ev[f] ELSE d
Future(id) == {<<H[t].h[i].v, H[t].h[i].r>> : i \in {j \in l..Len(H[t].h) : H[t].h[j].e = "cb" /\ H[t].h[j].id = id}}

\* the operations of SharedMap in terms of those of Map
Base == [Has |-> "Load", LOS |-> "LoadOrStore", MStore |-> "MStore", MClear |-> "MClear"]
Multi == {"MStore", "MClear"}

CallS ==
  LET m == IF Ev.m \in DOMAIN Base THEN Base[Ev.m] ELSE Ev.m
      todo == CASE m = "MStore" -> ToSet(Ev.ks) [] m = "MClear" -> DOMAIN kv [] OTHER -> {}
      r == NewOp(kv, m, Get("k", None), Get("v", None), Future(Ev.id))
  IN /\ Ev.id \notin DOMAIN op
     /\ op' = op @@ (Ev.id :> [f \in DOMAIN r \cup {"todo", "api", "vs"} |->
                                IF f = "todo" THEN todo ELSE IF f = "api" THEN Ev.m ELSE IF f = "vs" THEN Get("vs", <<>>) ELSE r[f]])
     /\ UNCHANGED kv

Drop(id) == op' = Without(op, id) /\ UNCHANGED kv

RetS ==
  LET o == op[Ev.id] IN
  CASE o.m \in Multi -> o.todo = {} /\ Drop(Ev.id)
    [] o.api = "Has" -> o.lin /\ o.rok = Ev.ok /\ Drop(Ev.id)
    [] o.api = "LOS" -> o.lin /\ o.rok = ~Ev.ok /\ Drop(Ev.id)
    [] OTHER -> Ret(Ev.id, Get("v", None), Get("ok", FALSE))

LinKey(id, k) ==
  LET nkv == [kv EXCEPT ![k] = IF op[id].m = "MStore" THEN op[id].vs[k + 1] ELSE None] IN
  /\ kv' = nkv
  /\ op' = Watch([op EXCEPT ![id].todo = @ \ {k}], nkv)

\* alone, a MStore or Clear may as well take effect at once
LinAll(id) ==
  LET o == op[id]
      nkv == [k \in DOMAIN kv |-> IF k \notin o.todo THEN kv[k] ELSE IF o.m = "MStore" THEN o.vs[k + 1] ELSE None] IN
  /\ o.todo # {}
  /\ kv' = nkv
  /\ op' = [op EXCEPT ![id].todo = {}]

Silent(id) == IF op[id].m \in Multi /\ DOMAIN op = {id} THEN LinAll(id)
              ELSE IF op[id].m \in Multi THEN \E k \in op[id].todo : LinKey(id, k) ELSE Lin(id)

Consume ==
  CASE Ev.e \in {"cb", "pan", "rcb", "ret"} /\ Ev.id \notin DOMAIN op -> FALSE
    [] Ev.e = "call"  -> CallS
    [] Ev.e = "cb"    -> Callback(Ev.id, Ev.k, Ev.v, Ev.r)
    [] Ev.e = "rcb"   -> Visit(Ev.id, Ev.k, Ev.v, Ev.r)
    [] Ev.e = "ret"   -> RetS
    [] Ev.e = "shard" -> Ev.same /\ ~Ev.elsewhere /\ UNCHANGED mvars
    [] Ev.e = "end"   -> Ev.st = "done" /\ DOMAIN op = {} /\ UNCHANGED mvars
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ \/ Consume /\ l' = l + 1
           \/ /\ Ev.e # "call" /\ ~ENABLED Consume
              /\ \E id \in DOMAIN op : Silent(id)
              /\ l' = l
        /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))

Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
