------------------------------ MODULE MRTrace ------------------------------
(***************************************************************************)
(* Map-reduce (C14, C15): generated items go to the map function, written  *)
(* values to the output, which ends when all work has finished or the      *)
(* context has been cancelled.                                             *)
(***************************************************************************)
EXTENDS CtxDone, Sequences, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES gen, gend,      \* items generated, generation has ended
          run, fin,       \* items being mapped / mapped
          wr,             \* writes: value -> "call" "ok" "no"
          late,           \* writes that began after the context was done
          out, oend,      \* values delivered, output has ended
          slow,           \* the consumer is not reading
          t, l
vars == <<begun, done, gen, gend, run, fin, wr, late, out, oend, slow, t, l>>
Ev == H[t].h[l]
Init == /\ t \in 1..Len(H) /\ l = 1 /\ CtxInit
        /\ gen = {} /\ gend = FALSE /\ run = {} /\ fin = {} /\ wr = <<>> /\ late = {} /\ out = {} /\ oend = FALSE /\ slow = FALSE

Ctx == <<begun, done>>
Gen == <<gen, gend>>
Map == <<run, fin>>
Wr == <<wr, late>>
Out == <<out, oend, slow>>
Live == begun = {}
Oks == {v \in DOMAIN wr : wr[v] = "ok"}

Consume ==
  CASE Ev.e = "cx" -> CancelBegin(Ev.c) /\ UNCHANGED <<Gen, Map, Wr, Out>>
    [] Ev.e = "cxe" -> CancelEnd(Ev.c) /\ UNCHANGED <<Gen, Map, Wr, Out>>
    [] Ev.e = "gen" -> gen' = gen \cup {Ev.i} /\ UNCHANGED <<gend, Ctx, Map, Wr, Out>>
    [] Ev.e = "gend" -> gend' = TRUE /\ UNCHANGED <<gen, Ctx, Map, Wr, Out>>
    \* each item at most once; bounded while the context is live
    [] Ev.e = "mb" -> /\ Ev.i \in gen /\ Ev.i \notin run \cup fin
                      /\ run' = run \cup {Ev.i}
                      /\ Live => Cardinality(run') <= H[t].n0
                      /\ UNCHANGED <<fin, Ctx, Gen, Wr, Out>>
    [] Ev.e = "me" -> Ev.i \in run /\ run' = run \ {Ev.i} /\ fin' = fin \cup {Ev.i} /\ UNCHANGED <<Ctx, Gen, Wr, Out>>
    [] Ev.e = "wc" -> /\ wr' = wr @@ (Ev.v :> "call")
                      /\ late' = IF 0 \in done THEN late \cup {Ev.v} ELSE late
                      /\ UNCHANGED <<Ctx, Gen, Map, Out>>
    [] Ev.e = "wr" -> /\ Ev.ok => Ev.v \notin late
                      /\ ~Ev.ok => ~Live /\ Ev.v \notin out
                      \* a successful write is delivered before the output ends
                      /\ (Ev.ok /\ oend) => Ev.v \in out
                      /\ wr' = [wr EXCEPT ![Ev.v] = IF Ev.ok THEN "ok" ELSE "no"]
                      /\ UNCHANGED <<late, Ctx, Gen, Map, Out>>
    [] Ev.e = "out" -> /\ Ev.v \in DOMAIN wr /\ wr[Ev.v] # "no" /\ Ev.v \notin late
                       /\ Ev.v \notin out /\ ~oend
                       /\ out' = out \cup {Ev.v} /\ UNCHANGED <<oend, slow, Ctx, Gen, Map, Wr>>
    [] Ev.e = "oend" -> /\ Oks \subseteq out
                        /\ Live => gend /\ run = {} /\ fin = gen /\ out = DOMAIN wr
                        /\ oend' = TRUE /\ UNCHANGED <<out, slow, Ctx, Gen, Map, Wr>>
    [] Ev.e \in {"sb", "se"} -> slow' = (Ev.e = "sb") /\ UNCHANGED <<out, oend, Ctx, Gen, Map, Wr>>
    \* afterwards everything that the program lets go has ended
    [] Ev.e = "end" -> Ev.st = "done" /\ oend /\ gend /\ run = {} /\ UNCHANGED <<Ctx, Gen, Map, Wr, Out>>
    [] OTHER -> FALSE      \* "wpan": a write panicked, "alien": not an item

\* no time passes while the output could end, be read or an item be mapped
Timely == /\ (~slow /\ ~oend) => /\ 0 \notin done
                                /\ ~(gend /\ run = {} /\ fin = gen)
                                /\ Oks \subseteq out
          /\ (Live /\ Cardinality(run) < H[t].n0) => gen \subseteq run \cup fin
Jump == H[t].clock /\ l > 1 /\ Ev.e # "end" /\ Ev.now > H[t].h[l-1].now + 1

Next == /\ l <= Len(H[t].h)
        /\ Jump => Timely
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
