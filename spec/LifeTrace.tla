----------------------------- MODULE LifeTrace -----------------------------
(***************************************************************************)
(* The life of stream pipelines (C20): every generator runs to completion, *)
(* every consumer sees the end, nothing stays behind.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES gs, ge,   \* generators begun / ended
          cs, ce,   \* consumers begun / finished
          n,        \* number of generators, once known
          t, l
vars == <<gs, ge, cs, ce, n, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ gs = {} /\ ge = {} /\ cs = {} /\ ce = {} /\ n = -1

Consume ==
  CASE Ev.e = "gs" -> Ev.g \notin gs /\ gs' = gs \cup {Ev.g} /\ UNCHANGED <<ge, cs, ce, n>>
    [] Ev.e = "ge" -> Ev.g \in gs \ ge /\ ge' = ge \cup {Ev.g} /\ UNCHANGED <<gs, cs, ce, n>>
    [] Ev.e = "cs" -> Ev.c \notin cs /\ cs' = cs \cup {Ev.c} /\ UNCHANGED <<gs, ge, ce, n>>
    [] Ev.e = "ce" -> Ev.c \in cs \ ce /\ ce' = ce \cup {Ev.c} /\ UNCHANGED <<gs, ge, cs, n>>
    [] Ev.e = "pk" -> UNCHANGED <<gs, ge, cs, ce, n>>
    [] Ev.e = "gens" -> n' = Ev.n /\ UNCHANGED <<gs, ge, cs, ce>>
    [] Ev.e = "end" -> /\ Ev.st = "done" /\ Ev.blk = 0
                       /\ ce = 1..H[t].cons /\ ge = 1..n
                       /\ UNCHANGED <<gs, ge, cs, ce, n>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
