---------------------------- MODULE JoinerTrace ----------------------------
(***************************************************************************)
(* The string joiner (C21).  Strings are sequences of bytes.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pre, sep, suf,   \* as configured
          pieces,          \* written since creation or the last Reset
          said,            \* the strings returned so far
          t, l
vars == <<pre, sep, suf, pieces, said, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ pre = <<>> /\ sep = <<>> /\ suf = <<>> /\ pieces = <<>> /\ said = <<>>

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s))
Str == pre \o Join(pieces) \o suf
Opts == <<pre, sep, suf>>

Consume ==
  CASE Ev.e = "new" -> pre' = Ev.p /\ sep' = Ev.s /\ suf' = Ev.x /\ UNCHANGED <<pieces, said>>
    [] Ev.e = "w" -> /\ Ev.n = Len(Ev.b) /\ Ev.err = ""
                     /\ pieces' = Append(pieces, Ev.b) /\ UNCHANGED <<Opts, said>>
    [] Ev.e = "reset" -> pieces' = <<>> /\ UNCHANGED <<Opts, said>>
    [] Ev.e = "grow" -> Ev.cap >= Len(Str) + Ev.g /\ UNCHANGED <<Opts, pieces, said>>
    \* a negative size is refused
    [] Ev.e = "negative" -> ~Ev.ok /\ UNCHANGED <<Opts, pieces, said>>
    [] Ev.e = "str" -> Ev.b = Str /\ said' = Append(said, Ev.b) /\ UNCHANGED <<Opts, pieces>>
    [] Ev.e = "len" -> Ev.n = Len(Str) /\ UNCHANGED <<Opts, pieces, said>>
    [] Ev.e = "cap" -> Ev.n >= Len(Str) /\ UNCHANGED <<Opts, pieces, said>>
    \* a returned string stays what it was
    [] Ev.e = "kept" -> Ev.b = said[Ev.k] /\ UNCHANGED <<Opts, pieces, said>>
    [] Ev.e = "end" -> Ev.st = "done" /\ UNCHANGED <<Opts, pieces, said>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
