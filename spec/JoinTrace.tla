----------------------------- MODULE JoinTrace -----------------------------
(***************************************************************************)
(* Concat and Copy (C18).  srcs[s]: the elements of input stream s, all    *)
(* different but for 0, which stands for nil; names: number of copies.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES got,      \* per output and input: number of elements delivered
          ended,    \* inputs whose source has ended
          oend,     \* outputs that have ended or need not be read on
          t, l
vars == <<got, ended, oend, t, l>>
Ev == H[t].h[l]
Src(s) == H[t].srcs[s]
Ins == 1..Len(H[t].srcs)
Outs == IF H[t].op = "concat" THEN {1} ELSE 1..H[t].names
Init == t \in 1..Len(H) /\ l = 1 /\ got = [c \in Outs |-> [s \in Ins |-> 0]] /\ ended = {} /\ oend = {}

Consume ==
  CASE Ev.e = "se" -> ended' = ended \cup {Ev.s} /\ UNCHANGED <<got, oend>>
    \* each input's own order, nothing twice, nothing else
    [] Ev.e = "out" -> /\ Ev.c \in Outs \ oend
                       /\ \E s \in Ins : /\ got[Ev.c][s] < Len(Src(s)) /\ Src(s)[got[Ev.c][s] + 1] = Ev.v
                                          /\ got' = [got EXCEPT ![Ev.c][s] = @ + 1]
                       /\ UNCHANGED <<ended, oend>>
    [] Ev.e = "oend" -> /\ Ev.c \in Outs \ oend /\ ended = Ins
                        /\ \A s \in Ins : got[Ev.c][s] = Len(Src(s))
                        /\ oend' = oend \cup {Ev.c} /\ UNCHANGED <<got, ended>>
    [] Ev.e = "stop" -> Ev.c \in Outs \ oend /\ oend' = oend \cup {Ev.c} /\ UNCHANGED <<got, ended>>
    [] Ev.e = "end" -> Ev.st # "crash" /\ oend = Outs /\ ended = Ins /\ UNCHANGED <<got, ended, oend>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
