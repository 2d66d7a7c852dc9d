----------------------------- MODULE StreamImpl -----------------------------
(***************************************************************************)
(* Design of a stream pipeline (C16, C17, C20): a source, some stages, each *)
(* a goroutine between two channels, and a terminal operation. Every       *)
(* combination of stages is explored under every schedule. What comes out  *)
(* is what the stages make of the sequence; whether or not the terminal    *)
(* operation reads to the end, every goroutine ends (Settles).             *)
(* Channels are unbuffered: a sender goes on when its value is taken; the  *)
(* channel behind "walk" holds as many values as there are workers.        *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Kinds, Stages, Workers, Bug

\* what a stage makes of a whole sequence
Sem(k, q) == CASE k = "skip" -> IF Len(q) > 1 THEN Tail(q) ELSE <<>>
               [] k = "limit" -> SubSeq(q, 1, IF Len(q) < 2 THEN Len(q) ELSE 2)
               [] k = "tail" -> SubSeq(q, IF Len(q) < 2 THEN 1 ELSE Len(q) - 1, Len(q))
               [] k = "filter" -> SelectSeq(q, LAMBDA x : x % 2 = 1)
               [] k = "twice" -> [i \in 1..2 * Len(q) |-> q[(i + 1) \div 2]]
               [] k \in {"walk", "pass"} -> q
RECURSIVE Out(_, _)
Out(ks, q) == IF ks = <<>> THEN q ELSE Out(Tail(ks), Sem(Head(ks), q))

VARIABLES ks, term,       \* the pipeline
          ch, shut,       \* channel i: values in it, closed; channel 0 is written by the source
          st,             \* stage i (0: source): [pc, n, hold, w]
          got, over,      \* what the terminal operation received; it has returned
          drain           \* "no" "on" "over": the goroutine that reads the rest
vars == <<ks, term, ch, shut, st, got, over, drain>>
S == Len(ks)
Cap(i) == IF i > 0 /\ ks[i] = "walk" THEN Workers ELSE 0

Init == /\ ks \in UNION {[1..n -> Kinds] : n \in 0..Stages}
        /\ term \in {"all", "one"}
        /\ ch = [i \in 0..S |-> <<>>] /\ shut = [i \in 0..S |-> FALSE]
        /\ st = [i \in 0..S |-> [pc |-> "recv", n |-> 0, hold |-> <<>>, w |-> {}]]
        /\ got = <<>> /\ over = FALSE /\ drain = "no"

Fixed == UNCHANGED <<ks, term>>
Tm == UNCHANGED <<got, over, drain>>

\* a value goes into channel i when there is room: the sender of an unbuffered channel then waits for "ack"
Room(i) == Len(ch[i]) < IF Cap(i) = 0 THEN 1 ELSE Cap(i)
Put(i, v) == Room(i) /\ ~shut[i] /\ ch' = [ch EXCEPT ![i] = Append(@, v)]

Send(i) ==
  /\ st[i].pc = "send" /\ st[i].hold # <<>>
  /\ Put(i, Head(st[i].hold))
  /\ st' = [st EXCEPT ![i].pc = IF Cap(i) = 0 THEN "ack" ELSE "send", ![i].hold = Tail(@)]
  /\ UNCHANGED shut /\ Tm /\ Fixed
Ack(i) ==
  /\ st[i].pc = "ack" /\ ch[i] = <<>>
  /\ st' = [st EXCEPT ![i].pc = "send"] /\ UNCHANGED <<ch, shut>> /\ Tm /\ Fixed

\* everything held has been sent
Sent(i) ==
  /\ st[i].pc = "send" /\ st[i].hold = <<>>
  /\ IF i > 0 /\ ks[i] = "limit" /\ st[i].n >= 2 /\ ~shut[i]
     THEN \* the consumer has all it gets; the rest is read and thrown away
          /\ shut' = [shut EXCEPT ![i] = TRUE]
          /\ st' = [st EXCEPT ![i].pc = IF Bug = 1 THEN "over" ELSE "recv"]
     ELSE IF i = 0 \/ st[i].n < 0
     THEN shut' = [shut EXCEPT ![i] = TRUE] /\ st' = [st EXCEPT ![i].pc = "over"]
     ELSE UNCHANGED shut /\ st' = [st EXCEPT ![i].pc = "recv"]
  /\ UNCHANGED ch /\ Tm /\ Fixed

Source == /\ st[0].pc = "recv" /\ st' = [st EXCEPT ![0].pc = "send", ![0].hold = [j \in 1..N |-> j]]
          /\ UNCHANGED <<ch, shut>> /\ Tm /\ Fixed

Recv(i) ==
  LET k == ks[i] a == st[i] IN
  /\ a.pc = "recv" /\ k # "walk" /\ Tm /\ Fixed
  /\ \/ /\ ch[i-1] # <<>>
        /\ ch' = [ch EXCEPT ![i-1] = Tail(@)]
        /\ LET x == Head(ch[i-1]) n == a.n + 1
               h == CASE k = "skip" -> IF n > 1 THEN <<x>> ELSE <<>>
                      [] k = "limit" -> IF n <= 2 THEN <<x>> ELSE <<>>
                      [] k = "tail" -> LET q == Append(a.hold, x) IN IF Len(q) > 2 THEN Tail(q) ELSE q
                      [] k = "filter" -> IF x % 2 = 1 THEN <<x>> ELSE <<>>
                      [] k = "twice" -> <<x, x>>
                      [] OTHER -> <<x>> IN
           st' = [st EXCEPT ![i] = [a EXCEPT !.n = n, !.hold = h, !.pc = IF k = "tail" THEN "recv" ELSE "send"]]
        /\ UNCHANGED shut
     \/ /\ ch[i-1] = <<>> /\ shut[i-1] /\ UNCHANGED ch
        \* the input has ended
        /\ IF k = "tail" /\ a.n >= 0 THEN st' = [st EXCEPT ![i].pc = "send", ![i].n = -1] /\ UNCHANGED shut
           ELSE st' = [st EXCEPT ![i].pc = "over"] /\ shut' = [shut EXCEPT ![i] = TRUE]

\* Walk: a dispatcher with a pool of workers; nothing is read without a worker
WalkRecv(i) ==
  LET a == st[i] IN
  /\ ks[i] = "walk" /\ Tm /\ Fixed
  /\ \/ /\ a.pc = "recv" /\ Cardinality(a.w) < Workers /\ ch[i-1] # <<>>
        /\ ch' = [ch EXCEPT ![i-1] = Tail(@)] /\ UNCHANGED shut
        /\ st' = [st EXCEPT ![i].w = @ \cup {<<a.n, Head(ch[i-1])>>}, ![i].n = a.n + 1]
     \/ /\ a.pc = "recv" /\ Cardinality(a.w) < Workers /\ ch[i-1] = <<>> /\ shut[i-1]
        /\ st' = [st EXCEPT ![i].pc = "wait"] /\ UNCHANGED <<ch, shut>>
     \/ /\ a.pc = "wait" /\ (a.w = {} \/ Bug = 2) /\ st' = [st EXCEPT ![i].pc = "over"] /\ shut' = [shut EXCEPT ![i] = TRUE] /\ UNCHANGED ch
     \/ \E e \in a.w : Put(i, e[2]) /\ st' = [st EXCEPT ![i].w = @ \ {e}] /\ UNCHANGED shut

Last == ch[S]
Terminal ==
  /\ ~over /\ Fixed /\ UNCHANGED st /\ UNCHANGED shut
  /\ \/ /\ Last # <<>> /\ got' = Append(got, Head(Last)) /\ ch' = [ch EXCEPT ![S] = Tail(@)]
        /\ IF term = "one" THEN over' = TRUE /\ drain' = (IF Bug = 3 THEN "over" ELSE "on") ELSE UNCHANGED <<over, drain>>
     \/ /\ Last = <<>> /\ shut[S] /\ over' = TRUE /\ drain' = "over" /\ UNCHANGED <<got, ch>>
Drain ==
  /\ drain = "on" /\ Fixed /\ UNCHANGED <<st, shut, got, over>>
  /\ \/ Last # <<>> /\ ch' = [ch EXCEPT ![S] = Tail(@)] /\ UNCHANGED drain
     \/ Last = <<>> /\ shut[S] /\ drain' = "over" /\ UNCHANGED ch

StepOf(i) == Send(i) \/ Ack(i) \/ Sent(i) \/ (i = 0 /\ Source) \/ (i > 0 /\ (Recv(i) \/ WalkRecv(i)))
Next == Terminal \/ Drain \/ \E i \in 0..S : StepOf(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Terminal) /\ WF_vars(Drain) /\ \A i \in 0..Stages : WF_vars(i <= S /\ StepOf(i))

Src == [j \in 1..N |-> j]
Count(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in 1..N : Count(p, x) = Count(q, x)
Ordered == \A i \in 1..S : ks[i] # "walk"
\* stages behind "walk" that depend on the order are left to the trace validation
LastWalk == \A i \in 1..S : ks[i] = "walk" => \A j \in i..S : ks[j] \in {"walk", "pass", "filter", "twice"}
Result == over => LET r == Out(ks, Src) IN
          CASE Ordered /\ term = "all" -> got = r
            [] Ordered -> got = SubSeq(r, 1, IF r = <<>> THEN 0 ELSE 1)
            [] LastWalk /\ term = "all" -> SameBag(got, r)
            [] OTHER -> \A x \in 1..N : Count(got, x) <= Count(Out([i \in 1..S |-> IF ks[i] = "twice" THEN "twice" ELSE "pass"], Src), x)
Workload == \A i \in 1..S : Cardinality(st[i].w) <= Workers
Settles == <>[](over /\ drain = "over" /\ \A i \in 0..S : st[i].pc = "over" /\ st[i].w = {})
=============================================================================
