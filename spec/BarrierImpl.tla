---------------------------- MODULE BarrierImpl ----------------------------
(***************************************************************************)
(* Design of the barriers: look at the context, then send to (receive      *)
(* from) the channel without looking again. Writers on one side, readers   *)
(* on the other, one context each, cancelled at any time; a channel of     *)
(* Cap places, 0 meaning a hand-over.                                      *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Writers, Readers, NOps, Cap, Bug
VARIABLES wctx, rctx,          \* the contexts of the write and of the read barrier
          wpc, rpc,            \* "idle" "check" "act"
          wpre, rpre,          \* the context was done when the call began
          wleft, rleft,        \* calls still to make
          ch, sent, recvd,     \* the channel; values sent and received so far, in order
          okw, okr, badw, badr \* reports: values written, values read; calls that went wrong
vars == <<wctx, rctx, wpc, rpc, wpre, rpre, wleft, rleft, ch, sent, recvd, okw, okr, badw, badr>>

Init == /\ wctx = FALSE /\ rctx = FALSE /\ wpc = [w \in Writers |-> "idle"] /\ rpc = [r \in Readers |-> "idle"]
        /\ wpre = [w \in Writers |-> FALSE] /\ rpre = [r \in Readers |-> FALSE]
        /\ wleft = [w \in Writers |-> NOps] /\ rleft = [r \in Readers |-> NOps]
        /\ ch = <<>> /\ sent = <<>> /\ recvd = <<>> /\ okw = {} /\ okr = {} /\ badw = FALSE /\ badr = FALSE

Cancel == \/ /\ ~wctx /\ wctx' = TRUE /\ UNCHANGED <<rctx, wpc, rpc, wpre, rpre, wleft, rleft, ch, sent, recvd, okw, okr, badw, badr>>
          \/ /\ ~rctx /\ rctx' = TRUE /\ UNCHANGED <<wctx, wpc, rpc, wpre, rpre, wleft, rleft, ch, sent, recvd, okw, okr, badw, badr>>

V(w) == 10 * w + wleft[w]
R == <<rctx, rpc, rpre, rleft, recvd, okr, badr>>
W == <<wctx, wpc, wpre, wleft, sent, okw, badw>>
EndW(w, ok) == /\ wleft' = [wleft EXCEPT ![w] = @ - 1] /\ wpc' = [wpc EXCEPT ![w] = "idle"]
               /\ okw' = (IF ok THEN okw \cup {V(w)} ELSE okw)
               /\ badw' = (badw \/ (ok /\ wpre[w]) \/ (~ok /\ ~wctx))
Write(w) ==
  /\ wctx' = wctx /\ UNCHANGED R
  /\ \/ /\ wpc[w] = "idle" /\ wleft[w] > 0 /\ wpre' = [wpre EXCEPT ![w] = wctx]
        \* Bug 1: it does not look first; sending and the context compete
        /\ wpc' = [wpc EXCEPT ![w] = IF Bug = 1 THEN "act" ELSE "check"] /\ UNCHANGED <<wleft, ch, sent, okw, badw>>
     \/ /\ wpc[w] = "check" /\ wctx /\ EndW(w, FALSE)
        \* Bug 2: a value is sent all the same
        /\ IF Bug = 2 /\ Len(ch) < Cap THEN ch' = Append(ch, V(w)) /\ sent' = Append(sent, V(w)) ELSE UNCHANGED <<ch, sent>>
        /\ UNCHANGED wpre
     \/ /\ wpc[w] = "check" /\ ~wctx /\ wpc' = [wpc EXCEPT ![w] = "act"] /\ UNCHANGED <<wpre, wleft, ch, sent, okw, badw>>
     \/ /\ wpc[w] = "act" /\ Len(ch) < Cap /\ ch' = Append(ch, V(w)) /\ sent' = Append(sent, V(w)) /\ EndW(w, TRUE) /\ UNCHANGED wpre
     \/ /\ Bug = 1 /\ wpc[w] = "act" /\ wctx /\ EndW(w, FALSE) /\ UNCHANGED <<wpre, ch, sent>>
\* Bug 3: the reader receives first and looks then
EndR(r, ok, v) == /\ rleft' = [rleft EXCEPT ![r] = @ - 1] /\ rpc' = [rpc EXCEPT ![r] = "idle"]
                  /\ okr' = (IF ok THEN okr \cup {v} ELSE okr)
                  /\ badr' = (badr \/ (ok /\ rpre[r]) \/ (~ok /\ ~rctx))
Read(r) ==
  /\ rctx' = rctx /\ UNCHANGED W
  /\ \/ /\ rpc[r] = "idle" /\ rleft[r] > 0 /\ rpre' = [rpre EXCEPT ![r] = rctx]
        /\ rpc' = [rpc EXCEPT ![r] = IF Bug = 3 THEN "act" ELSE "check"] /\ UNCHANGED <<rleft, ch, recvd, okr, badr>>
     \/ /\ rpc[r] = "check" /\ rctx /\ EndR(r, FALSE, 0) /\ UNCHANGED <<rpre, ch, recvd>>
     \/ /\ rpc[r] = "check" /\ ~rctx /\ rpc' = [rpc EXCEPT ![r] = "act"] /\ UNCHANGED <<rpre, rleft, ch, recvd, okr, badr>>
     \/ /\ rpc[r] = "act" /\ ch # <<>> /\ ch' = Tail(ch) /\ recvd' = Append(recvd, Head(ch))
        /\ EndR(r, ~(Bug = 3 /\ rctx), Head(ch)) /\ UNCHANGED rpre
\* a channel without places: both sides at once
Meet(w, r) == /\ Cap = 0 /\ wpc[w] = "act" /\ rpc[r] = "act" /\ EndW(w, TRUE) /\ EndR(r, TRUE, V(w))
              /\ sent' = Append(sent, V(w)) /\ recvd' = Append(recvd, V(w)) /\ UNCHANGED <<wctx, rctx, wpre, rpre, ch>>
Next == Cancel \/ (\E w \in Writers : Write(w)) \/ (\E r \in Readers : Read(r)) \/ \E w \in Writers, r \in Readers : Meet(w, r)
Spec == Init /\ [][Next]_vars /\ \A w \in Writers : WF_vars(Write(w)) /\ \A r \in Readers : WF_vars(Read(r)) /\ WF_vars(Meet(w, r))

Set(s) == {s[i] : i \in 1..Len(s)}
Inv == /\ ~badw /\ ~badr
       /\ okw = Set(sent)                        \* success if and only if the value went out
       /\ Len(sent) = Len(recvd) + Len(ch)       \* once
       /\ SubSeq(sent, 1, Len(recvd)) = recvd    \* in order
       /\ okr = Set(recvd)                       \* a read that fails takes nothing
\* a call that begins once the context is done comes back
Back == \A w \in Writers : (wpc[w] = "check" /\ wctx) ~> (wpc[w] = "idle")
=============================================================================
