------------------------------ MODULE OnceImpl ------------------------------
(***************************************************************************)
(* Design of the write-once value and the write-once channel: one compare- *)
(* and-swap decides who wins; the winner of the channel then sends into    *)
(* its buffer of one and closes it. Readers of the value look at any time; *)
(* readers of the channel receive, one value or its end.                   *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Writers, Readers, Bug
None == 0
VARIABLES val,            \* the value: a writer, or None
          flag, buf, closed,  \* the channel: the flag, what is in its buffer, closed
          vpc, vok,       \* writers of the value: "idle" "set" "over"; reported
          cpc, cok,       \* writers of the channel: "idle" "set" "send" "close" "over" "panic"
          seen,           \* readers of the value: the last value seen
          got, ended,     \* readers of the channel: values received, and its end
          bad             \* a reader saw one value and then another
vars == <<val, flag, buf, closed, vpc, vok, cpc, cok, seen, got, ended, bad>>

Init == /\ val = None /\ flag = FALSE /\ buf = None /\ closed = FALSE
        /\ vpc = [w \in Writers |-> "idle"] /\ vok = [w \in Writers |-> FALSE]
        /\ cpc = [w \in Writers |-> "idle"] /\ cok = [w \in Writers |-> FALSE]
        /\ seen = [r \in Readers |-> None] /\ got = [r \in Readers |-> {}] /\ ended = [r \in Readers |-> FALSE] /\ bad = FALSE

\* Bug 1: the test and the write are two steps
WriteValue(w) ==
  /\ UNCHANGED <<flag, buf, closed, cpc, cok, seen, got, ended, bad>>
  /\ \/ /\ vpc[w] = "idle" /\ Bug = 1 /\ vpc' = [vpc EXCEPT ![w] = IF val = None THEN "set" ELSE "over"] /\ UNCHANGED <<val, vok>>
     \/ /\ vpc[w] = "set" /\ val' = w /\ vok' = [vok EXCEPT ![w] = TRUE] /\ vpc' = [vpc EXCEPT ![w] = "over"]
     \/ /\ vpc[w] = "idle" /\ Bug # 1 /\ val' = (IF val = None THEN w ELSE val)
        /\ vok' = [vok EXCEPT ![w] = val = None] /\ vpc' = [vpc EXCEPT ![w] = "over"]

WriteChan(w) ==
  /\ UNCHANGED <<val, vpc, vok, seen, got, ended, bad>>
  /\ \* Bug 2: the flag is read first and set later
     \/ /\ cpc[w] = "idle" /\ Bug = 2 /\ cpc' = [cpc EXCEPT ![w] = IF flag THEN "over" ELSE "set"] /\ UNCHANGED <<flag, buf, closed, cok>>
     \/ /\ cpc[w] = "set" /\ flag' = TRUE /\ cok' = [cok EXCEPT ![w] = TRUE] /\ cpc' = [cpc EXCEPT ![w] = "send"] /\ UNCHANGED <<buf, closed>>
     \/ /\ cpc[w] = "idle" /\ Bug # 2 /\ flag' = TRUE /\ cok' = [cok EXCEPT ![w] = ~flag]
        /\ cpc' = [cpc EXCEPT ![w] = IF flag THEN "over" ELSE IF Bug = 3 THEN "close" ELSE "send"] /\ UNCHANGED <<buf, closed>>
     \* Bug 3: closed before the value is sent
     \/ /\ cpc[w] = "send" /\ closed /\ cpc' = [cpc EXCEPT ![w] = "panic"] /\ UNCHANGED <<flag, buf, closed, cok>>
     \/ /\ cpc[w] = "send" /\ ~closed /\ buf = None /\ buf' = w /\ cpc' = [cpc EXCEPT ![w] = "close"] /\ UNCHANGED <<flag, closed, cok>>
     \/ /\ cpc[w] = "close" /\ closed /\ cpc' = [cpc EXCEPT ![w] = "panic"] /\ UNCHANGED <<flag, buf, closed, cok>>
     \/ /\ cpc[w] = "close" /\ ~closed /\ closed' = TRUE
        /\ cpc' = [cpc EXCEPT ![w] = IF Bug = 3 THEN "send" ELSE "over"] /\ UNCHANGED <<flag, buf, cok>>

See(r) == /\ seen' = [seen EXCEPT ![r] = val] /\ bad' = (bad \/ (seen[r] # None /\ val # seen[r]))
          /\ UNCHANGED <<val, flag, buf, closed, vpc, vok, cpc, cok, got, ended>>
Receive(r) == /\ ~ended[r]
              /\ \/ /\ buf # None /\ got' = [got EXCEPT ![r] = @ \cup {buf}] /\ buf' = None /\ UNCHANGED ended
                 \/ /\ buf = None /\ closed /\ ended' = [ended EXCEPT ![r] = TRUE] /\ UNCHANGED <<got, buf>>
              /\ UNCHANGED <<val, flag, closed, vpc, vok, cpc, cok, seen, bad>>
Next == (\E w \in Writers : WriteValue(w) \/ WriteChan(w)) \/ \E r \in Readers : See(r) \/ Receive(r)
Spec == Init /\ [][Next]_vars /\ \A w \in Writers : WF_vars(WriteValue(w)) /\ WF_vars(WriteChan(w))
             /\ \A r \in Readers : WF_vars(Receive(r))

All == UNION {got[r] : r \in Readers}
Inv == /\ ~bad
       /\ \A v, w \in Writers : v # w => ~(vok[v] /\ vok[w]) /\ ~(cok[v] /\ cok[w])
       /\ \A w \in Writers : cpc[w] # "panic"
       /\ \A w \in Writers : vok[w] => val = w
       /\ (\A w \in Writers : vpc[w] = "over") => val # None
       /\ \A v \in All : cok[v]
       /\ \A r, s \in Readers : r # s => got[r] \cap got[s] = {}
       /\ \A r \in Readers : ended[r] => buf = None /\ All # {}
Done == <>(\A w \in Writers : vpc[w] = "over" /\ cpc[w] = "over") /\ <>(\A r \in Readers : ended[r])
=============================================================================
