------------------------------ MODULE BufTrace -----------------------------
(***************************************************************************)
(* Pooled buffered I/O (C23): every handle obtained behaves as a fresh     *)
(* reader of its source or writer to its sink, and belongs to one user.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hd,      \* handle -> its state
          t, l
vars == <<hd, t, l>>
Ev == H[t].h[l]
Init == t \in 1..Len(H) /\ l = 1 /\ hd = <<>>

Min(a, b) == IF a < b THEN a ELSE b
D == hd[Ev.h]
Rest == SubSeq(D.src, D.pos + 1, Len(D.src))
Take(n) == SubSeq(Rest, 1, Min(n, Len(Rest)))
Move(n) == hd' = [hd EXCEPT ![Ev.h].pos = @ + n]
Stay == UNCHANGED hd
Idx(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..i-1 : s[j] # x ELSE 0

Consume ==
  CASE Ev.e = "get" ->
         \* fresh, of the size asked for, nobody else's
         /\ Ev.size >= Ev.req /\ Ev.buffered = 0
         /\ \A i \in DOMAIN hd : hd[i].live => hd[i].p # Ev.p
         /\ hd' = hd @@ (Ev.h :> [live |-> TRUE, p |-> Ev.p, size |-> Ev.size, src |-> Ev.src, pos |-> 0, err |-> Ev.err,
                                  all |-> <<>>, sunk |-> 0, fail |-> FALSE])
    [] Ev.e = "put" -> D.live /\ hd' = [hd EXCEPT ![Ev.h].live = FALSE]
    \* ---- readers
    [] Ev.e = "read" -> /\ Ev.b = Take(Len(Ev.b)) /\ Len(Ev.b) <= Ev.n
                        /\ IF Rest = <<>> THEN Ev.b = <<>> /\ Ev.err = D.err
                           ELSE Ev.b # <<>> /\ (Ev.err = "" \/ (Ev.b = Rest /\ Ev.err = D.err))
                        /\ Move(Len(Ev.b))
    [] Ev.e = "peek" -> /\ Ev.b = Take(Ev.n)
                        /\ Ev.err = (IF Len(Ev.b) < Ev.n THEN D.err ELSE "")
                        /\ Stay
    [] Ev.e = "byte" -> IF Rest = <<>> THEN Ev.err = D.err /\ Stay
                        ELSE Ev.err = "" /\ Ev.v = Rest[1] /\ Move(1)
    [] Ev.e = "unread" -> Ev.ok /\ Move(-1)
    [] Ev.e = "unread0" -> ~Ev.ok /\ Stay
    [] Ev.e = "line" -> LET i == Idx(Rest, Ev.d)
                        IN /\ IF i = 0 THEN Ev.b = Rest /\ Ev.err = D.err ELSE Ev.b = SubSeq(Rest, 1, i) /\ Ev.err = ""
                           /\ Move(Len(Ev.b))
    [] Ev.e = "rbuf" -> Ev.n <= Len(Rest) /\ Stay
    \* ---- writers: all: bytes given to it, sunk: how many have reached the sink
    [] Ev.e = "wc" -> hd' = [hd EXCEPT ![Ev.h].all = @ \o Ev.b]
    [] Ev.e = "sink" -> /\ D.live /\ ~D.fail
                        /\ D.sunk + Len(Ev.b) <= Len(D.all)
                        /\ Ev.b = SubSeq(D.all, D.sunk + 1, D.sunk + Len(Ev.b))
                        /\ hd' = [hd EXCEPT ![Ev.h].sunk = @ + Len(Ev.b)]
    [] Ev.e = "sinkfail" -> D.live /\ hd' = [hd EXCEPT ![Ev.h].fail = TRUE]
    [] Ev.e = "wr" -> \* all was taken, unless the sink has failed
                      /\ ~D.fail => Ev.err = "" /\ Ev.n >= 0
                      /\ D.fail => Ev.err \in {"", "sink"}
                      /\ Stay
    [] Ev.e = "flush" -> /\ IF D.fail THEN Ev.err = "sink" ELSE Ev.err = "" /\ D.sunk = Len(D.all)
                         /\ Stay
    [] Ev.e = "wbuf" -> /\ ~D.fail => Ev.n = Len(D.all) - D.sunk /\ Ev.avail = D.size - Ev.n
                        /\ Stay
    [] Ev.e = "end" -> Ev.st = "done" /\ Stay
    [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
