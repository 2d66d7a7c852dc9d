----------------------------- MODULE CodecTrace ----------------------------
(***************************************************************************)
(* The binary codec (C22).  Each client c has a sink taking at most max    *)
(* bytes (-1: any number) and then a source ending in EOF or (bad) in an   *)
(* error of its own.  32-bit values are given as two 16-bit halves.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES out, max,     \* per client: bytes written without error so far, room
          over,         \* per client: the sink has failed
          src, bad, pos,
          got,          \* per client: values read
          t, l
vars == <<out, max, over, src, bad, pos, got, t, l>>
Ev == H[t].h[l]
Cs == 1..H[t].clients
All(x) == [c \in Cs |-> x]
Init == /\ t \in 1..Len(H) /\ l = 1
        /\ out = All(<<>>) /\ max = All(-1) /\ over = All(FALSE)
        /\ src = All(<<>>) /\ bad = All(FALSE) /\ pos = All(0) /\ got = All(<<>>)
Wr == <<out, max, over>>
Rd == <<src, bad, pos, got>>

Two(n) == <<n \div 256, n % 256>>
Num(b, i) == b[i] * 256 + b[i + 1]
Fits(v) == v.k # "bytes" \/ Len(v.b) <= 65535
Enc(v) == CASE v.k = "bool" -> <<v.lo>>
            [] v.k = "u16" -> Two(v.lo)
            [] v.k = "u32" -> Two(v.hi) \o Two(v.lo)
            [] v.k = "bytes" -> Two(Len(v.b)) \o v.b

IsPrefix_(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Size(k) == CASE k = "bool" -> 1 [] k = "u16" -> 2 [] k = "u32" -> 4 [] k = "bytes" -> 2

\* what is read at the current position: the number of bytes, 0 if there are not enough
Need(c, k) == LET have == Len(src[c]) - pos[c]
              IN IF have < Size(k) THEN 0
                 ELSE IF k # "bytes" THEN Size(k)
                 ELSE LET n == 2 + Num(src[c], pos[c] + 1) IN IF have < n THEN 0 ELSE n

Is(v, b) == CASE v.k = "bool" -> v.lo = (IF b[1] = 1 THEN 1 ELSE 0)
              [] v.k = "u16" -> v.lo = Num(b, 1)
              [] v.k = "u32" -> v.hi = Num(b, 1) /\ v.lo = Num(b, 3)
              [] v.k = "bytes" -> v.b = SubSeq(b, 3, Len(b))

Consume ==
  CASE Ev.e = "sink" -> max' = [max EXCEPT ![Ev.c] = Ev.max] /\ UNCHANGED <<out, over, Rd>>
    [] Ev.e = "w" ->
         LET c == Ev.c IN
         IF ~Fits(Ev) THEN Ev.err = "other" /\ UNCHANGED <<Wr, Rd>>        \* refused, nothing written
         ELSE LET all == out[c] \o Enc(Ev)
                  room == max[c] < 0 \/ Len(all) <= max[c]
              \* Ev.failed: the sink refused one of the calls for this value
              IN /\ Ev.err = (IF room /\ ~Ev.failed THEN "" ELSE "sink")
                 /\ out' = [out EXCEPT ![c] = IF room THEN all ELSE SubSeq(all, 1, max[c])]
                 /\ over' = [over EXCEPT ![c] = ~room \/ Ev.failed]
                 /\ UNCHANGED <<max, Rd>>
    \* after a failure at most what fits is there
    [] Ev.e = "wrote" -> /\ IF over[Ev.c] THEN IsPrefix_(Ev.b, out[Ev.c]) ELSE Ev.b = out[Ev.c]
                         /\ UNCHANGED <<Wr, Rd>>
    [] Ev.e = "src" -> src' = [src EXCEPT ![Ev.c] = Ev.b] /\ bad' = [bad EXCEPT ![Ev.c] = Ev.bad] /\ UNCHANGED <<Wr, pos, got>>
    [] Ev.e = "r" ->
         LET c == Ev.c
             n == Need(c, Ev.k)
         IN /\ IF n = 0 THEN /\ Ev.err = (IF bad[c] THEN "sink" ELSE "other")
                             /\ Ev.lo = 0 /\ Ev.hi = 0 /\ Ev.b = <<>>
                             /\ pos' = pos
               ELSE /\ Ev.err = ""
                    /\ Is(Ev, SubSeq(src[c], pos[c] + 1, pos[c] + n))
                    /\ Ev.pos = pos[c] + n       \* no more and no less is consumed
                    /\ pos' = [pos EXCEPT ![c] = @ + n]
            /\ got' = [got EXCEPT ![c] = Append(@, Ev.b)]
            /\ UNCHANGED <<Wr, src, bad>>
    [] Ev.e = "kept" -> Ev.b = got[Ev.c][Ev.k] /\ UNCHANGED <<Wr, Rd>>
    [] Ev.e = "end" -> Ev.st = "done" /\ UNCHANGED <<Wr, Rd>>
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
