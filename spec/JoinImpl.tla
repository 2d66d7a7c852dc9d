------------------------------ MODULE JoinImpl ------------------------------
(***************************************************************************)
(* Design of Concat and Copy. Concat: a goroutine starts one forwarder per *)
(* input (adding it to a wait group first), waits for them and closes the  *)
(* output. Copy: one goroutine gives each element to every copy in turn,   *)
(* and closes the copies at the end; the copies have buffers. Inputs are   *)
(* sequences of elements in channels that are closed behind them; the      *)
(* consumers take from the output and from every copy side by side. The    *)
(* output of Concat is the input of Copy.                                  *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Big,    \* 0, 1: which of the sizes below
          Bug
\* elements of the inputs, buffers of the copies
Inputs == IF Big = 0 THEN <<2, 0, 1>> ELSE <<2, 2, 1>>
Bufs == IF Big = 0 THEN <<1, 0>> ELSE <<2, 1, 0>>
In == 1..Len(Inputs)
Out == 1..Len(Bufs)
VARIABLES pos,          \* elements each forwarder has taken
          fpc, item,    \* forwarders: "none" "new" "take" "send" "done" "gone"; what they hold
          wg, starter,  \* the wait group; how many forwarders were started, and then "wait", "over"
          closed,       \* the output of Concat is closed
          cpc, citem,   \* the copier: "take", the copy it sends to next, "close", "over"; what it holds
          buf, cl, got, \* copies: buffers, closed, what their consumers have
          merged, panic
vars == <<pos, fpc, item, wg, starter, closed, cpc, citem, buf, cl, got, merged, panic>>
Init == /\ pos = [i \in In |-> 0] /\ fpc = [i \in In |-> "none"] /\ item = [i \in In |-> 0]
        /\ wg = 0 /\ starter = 1 /\ closed = FALSE /\ cpc = 0 /\ citem = 0
        /\ buf = [o \in Out |-> <<>>] /\ cl = [o \in Out |-> FALSE] /\ got = [o \in Out |-> <<>>]
        /\ merged = <<>> /\ panic = FALSE
C == <<cpc, citem, buf, cl, got>>
N == Len(Inputs)
Starter ==
  /\ UNCHANGED <<pos, item, merged, panic>> /\ UNCHANGED C
  /\ \/ /\ starter \in In /\ fpc' = [fpc EXCEPT ![starter] = IF Bug = 1 THEN "new" ELSE "take"]
        \* Bug 1: the forwarder adds itself to the wait group
        /\ wg' = (IF Bug = 1 THEN wg ELSE wg + 1) /\ starter' = starter + 1 /\ UNCHANGED closed
     \/ /\ starter = N + 1 /\ wg = 0 /\ closed' = TRUE /\ starter' = N + 2 /\ UNCHANGED <<fpc, wg>>
Forward(i) ==
  /\ UNCHANGED <<starter, closed, merged>> /\ UNCHANGED C
  /\ \/ /\ fpc[i] = "new" /\ fpc' = [fpc EXCEPT ![i] = "take"] /\ wg' = wg + 1 /\ UNCHANGED <<pos, item, panic>>
     \/ /\ fpc[i] = "take" /\ pos[i] < Inputs[i] /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ item' = [item EXCEPT ![i] = 10 * i + pos[i] + 1]
        /\ fpc' = [fpc EXCEPT ![i] = "send"] /\ UNCHANGED <<wg, panic>>
     \/ /\ fpc[i] = "take" /\ pos[i] = Inputs[i] /\ fpc' = [fpc EXCEPT ![i] = "gone"] /\ wg' = wg - 1 /\ UNCHANGED <<pos, item, panic>>
     \* Bug 2: the last element is counted off before it is sent
     \/ /\ Bug = 2 /\ fpc[i] = "send" /\ pos[i] = Inputs[i] /\ wg' = wg - 1 /\ fpc' = [fpc EXCEPT ![i] = "late"] /\ UNCHANGED <<pos, item, panic>>
     \/ /\ fpc[i] \in {"send", "late"} /\ closed /\ panic' = TRUE /\ UNCHANGED <<pos, fpc, item, wg>>
\* the copier takes what a forwarder sends: a hand-over
Take(i) == /\ cpc = 0 /\ fpc[i] \in {"send", "late"} /\ ~closed
           /\ citem' = item[i] /\ cpc' = 1 /\ merged' = Append(merged, item[i])
           /\ fpc' = [fpc EXCEPT ![i] = IF fpc[i] = "late" THEN "gone" ELSE "take"]
           /\ UNCHANGED <<pos, item, wg, starter, closed, buf, cl, got, panic>>
Move(x) == cpc' = x
Copier ==
  /\ UNCHANGED <<pos, fpc, item, wg, starter, closed, merged, panic>>
  /\ \/ /\ cpc = 0 /\ closed /\ Move(N + Len(Bufs) + 1) /\ cl' = [o \in Out |-> TRUE] /\ UNCHANGED <<citem, buf, got>>
     \/ /\ cpc \in Out /\ Len(buf[cpc]) < Bufs[cpc] /\ buf' = [buf EXCEPT ![cpc] = Append(@, citem)]
        /\ Move(IF cpc = Len(Bufs) THEN 0 ELSE cpc + 1) /\ UNCHANGED <<citem, cl, got>>
     \/ /\ cpc \in Out /\ Bufs[cpc] = 0 /\ got' = [got EXCEPT ![cpc] = Append(@, citem)]
        /\ Move(IF cpc = Len(Bufs) THEN 0 ELSE cpc + 1) /\ UNCHANGED <<citem, buf, cl>>
     \* Bug 3: a copy whose buffer is full is passed over
     \/ /\ Bug = 3 /\ cpc \in Out /\ Bufs[cpc] > 0 /\ Len(buf[cpc]) = Bufs[cpc]
        /\ Move(IF cpc = Len(Bufs) THEN 0 ELSE cpc + 1) /\ UNCHANGED <<citem, buf, cl, got>>
Consume(o) == /\ buf[o] # <<>> /\ got' = [got EXCEPT ![o] = Append(@, Head(buf[o]))] /\ buf' = [buf EXCEPT ![o] = Tail(@)]
              /\ UNCHANGED <<pos, fpc, item, wg, starter, closed, cpc, citem, cl, merged, panic>>
Next == Starter \/ Copier \/ (\E i \in In : Forward(i) \/ Take(i)) \/ \E o \in Out : Consume(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Starter) /\ WF_vars(Copier) /\ WF_vars(\E i \in In : Take(i))
             /\ (\A i \in In : WF_vars(Forward(i)) /\ SF_vars(Take(i))) /\ \A o \in Out : WF_vars(Consume(o))
Of(s, i) == LET F[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE IF s[k] \div 10 = i THEN Append(F[k - 1], s[k]) ELSE F[k - 1] IN F[Len(s)]
Inv == /\ ~panic /\ wg >= 0
       \* each input in its own order, nothing twice
       /\ \A i \in In : Of(merged, i) = [k \in 1..Len(Of(merged, i)) |-> 10 * i + k]
       \* the merged stream ends when all inputs have, with everything
       /\ closed => \A i \in In : Len(Of(merged, i)) = Inputs[i]
       \* every copy is a beginning of the merged stream, and all of it at its end
       /\ \A o \in Out : /\ got[o] \o buf[o] = SubSeq(merged, 1, Len(got[o]) + Len(buf[o]))
                         /\ cl[o] /\ buf[o] = <<>> => got[o] = merged
Done == <>(\A o \in Out : cl[o] /\ buf[o] = <<>>)
=============================================================================
