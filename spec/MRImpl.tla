------------------------------- MODULE MRImpl -------------------------------
(***************************************************************************)
(* Design of Map (xmapreduce) with everything under it: the worker's slots *)
(* (xworker), the task runner (xtask.Do) and the guarded collector. The    *)
(* invariants are the conditions of MRTrace, WorkerTrace and DoTrace; the  *)
(* temporal properties say that, cancelled or not, the output ends and     *)
(* nothing stays behind as long as map functions and consumer go on.       *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, W, Slots, Buf, Bug, Cancels
Items == 1..N
Writes == {<<i, w>> : i \in Items, w \in 1..W}

VARIABLES ctx,            \* the context is done
          gen,            \* items handed over so far; N + 1: source closed
          main,           \* doMap: "select" "slot" "wait" "close" "over"
          slots, wg,      \* slots in use, tasks not settled
          outer, inner,   \* [Items -> program counter] of Do and of the function it runs
          nw,             \* writes made by the function
          readers, wwait, closed,   \* the collector's lock
          buf, out, oend, \* the output channel and what was read of it
          oks, late, boom \* successful writes, writes begun after the cancellation, write on a closed channel
vars == <<ctx, gen, main, slots, wg, outer, inner, nw, readers, wwait, closed, buf, out, oend, oks, late, boom>>
Coll == <<readers, wwait, closed, buf, oks, late, boom>>
Rd == <<out, oend>>

Init == /\ ctx = FALSE /\ gen = 1 /\ main = "select" /\ slots = 0 /\ wg = 0
        /\ outer = [i \in Items |-> "none"] /\ inner = [i \in Items |-> "none"] /\ nw = [i \in Items |-> 0]
        /\ readers = {} /\ wwait = FALSE /\ closed = FALSE
        /\ buf = <<>> /\ out = <<>> /\ oend = FALSE /\ oks = {} /\ late = {} /\ boom = FALSE

Cancel == Cancels /\ ~ctx /\ ctx' = TRUE
          /\ UNCHANGED <<gen, main, slots, wg, outer, inner, nw, Coll, Rd>>

\* doMap: select over the context and the source
Main ==
  /\ UNCHANGED <<ctx, inner, nw, readers, buf, oks, late, boom, Rd>>
  /\ \/ /\ main = "select" /\ ctx /\ main' = "wait" /\ UNCHANGED <<gen, slots, wg, outer, wwait, closed>>
     \/ /\ main = "select" /\ gen <= N /\ gen' = gen + 1 /\ wg' = wg + 1 /\ main' = "slot"
        /\ UNCHANGED <<slots, outer, wwait, closed>>
     \/ /\ main = "select" /\ gen = N + 1 /\ main' = "wait" /\ UNCHANGED <<gen, slots, wg, outer, wwait, closed>>
     \* Worker.Run: a slot, then a goroutine running Do
     \/ /\ main = "slot" /\ slots < Slots /\ slots' = slots + 1 /\ outer' = [outer EXCEPT ![gen - 1] = "check"]
        /\ main' = "select" /\ UNCHANGED <<gen, wg, wwait, closed>>
     \/ /\ main = "wait" /\ (wg = 0 \/ Bug = 1) /\ main' = "close" /\ wwait' = (Bug # 2) /\ UNCHANGED <<gen, slots, wg, outer, closed>>
     \/ /\ main = "close" /\ (readers = {} \/ Bug = 2) /\ main' = "over" /\ wwait' = FALSE /\ closed' = TRUE
        /\ UNCHANGED <<gen, slots, wg, outer>>

\* Do for item i, its deferred function last
Outer(i) ==
  /\ UNCHANGED <<ctx, gen, main, nw, Coll, Rd>>
  /\ \/ /\ outer[i] = "check" /\ ctx /\ outer' = [outer EXCEPT ![i] = "defer"] /\ UNCHANGED <<slots, wg, inner>>
     \/ /\ outer[i] = "check" /\ ~ctx /\ outer' = [outer EXCEPT ![i] = "wait"] /\ inner' = [inner EXCEPT ![i] = "ready"]
        /\ UNCHANGED <<slots, wg>>
     \/ /\ outer[i] = "wait" /\ (ctx \/ inner[i] = "ended") /\ outer' = [outer EXCEPT ![i] = "defer"] /\ UNCHANGED <<slots, wg, inner>>
     \/ /\ outer[i] = "wait" /\ Bug = 3 /\ slots' = slots - 1 /\ outer' = [outer EXCEPT ![i] = "early"] /\ UNCHANGED <<wg, inner>>
     \/ /\ outer[i] = "early" /\ (ctx \/ inner[i] = "ended") /\ wg' = wg - 1 /\ outer' = [outer EXCEPT ![i] = "over"] /\ UNCHANGED <<slots, inner>>
     \/ /\ outer[i] = "defer" /\ wg' = wg - 1 /\ outer' = [outer EXCEPT ![i] = "slot"] /\ UNCHANGED <<slots, inner>>
     \/ /\ outer[i] = "slot" /\ slots' = slots - 1 /\ outer' = [outer EXCEPT ![i] = "over"] /\ UNCHANGED <<wg, inner>>

\* the map function: W writes, some of them refused
Inner(i) ==
  /\ UNCHANGED <<ctx, gen, main, slots, wg, outer, wwait, closed, Rd>>
  /\ \/ /\ inner[i] \in {"ready", "run"} /\ nw[i] = W /\ inner' = [inner EXCEPT ![i] = "ended"]
        /\ UNCHANGED <<nw, readers, buf, oks, late, boom>>
     \/ /\ inner[i] \in {"ready", "run"} /\ nw[i] < W /\ inner' = [inner EXCEPT ![i] = "lock"] /\ nw' = [nw EXCEPT ![i] = @ + 1]
        /\ late' = IF ctx THEN late \cup {<<i, nw[i] + 1>>} ELSE late
        /\ UNCHANGED <<readers, buf, oks, boom>>
     \/ /\ inner[i] = "lock" /\ ~wwait /\ readers' = readers \cup {i} /\ inner' = [inner EXCEPT ![i] = "test"]
        /\ UNCHANGED <<nw, buf, oks, late, boom>>
     \/ /\ inner[i] = "test" /\ IF (closed /\ Bug # 2) \/ ctx
                                THEN inner' = [inner EXCEPT ![i] = "run"] /\ readers' = readers \ {i}
                                ELSE inner' = [inner EXCEPT ![i] = "send"] /\ UNCHANGED readers
        /\ UNCHANGED <<nw, buf, oks, late, boom>>
     \/ /\ inner[i] = "send" /\ ctx /\ inner' = [inner EXCEPT ![i] = "run"] /\ readers' = readers \ {i}
        /\ UNCHANGED <<nw, buf, oks, late, boom>>
     \/ /\ inner[i] = "send" /\ closed /\ boom' = TRUE /\ inner' = [inner EXCEPT ![i] = "run"] /\ readers' = readers \ {i}
        /\ UNCHANGED <<nw, buf, oks, late>>
     \/ /\ inner[i] = "send" /\ ~closed /\ Len(buf) < Buf /\ buf' = Append(buf, <<i, nw[i]>>) /\ oks' = oks \cup {<<i, nw[i]>>}
        /\ inner' = [inner EXCEPT ![i] = "run"] /\ readers' = readers \ {i}
        /\ UNCHANGED <<nw, late, boom>>

Consumer ==
  /\ ~oend
  /\ \/ /\ buf # <<>> /\ out' = Append(out, Head(buf)) /\ buf' = Tail(buf) /\ UNCHANGED oend
     \/ /\ buf = <<>> /\ closed /\ oend' = TRUE /\ UNCHANGED <<buf, out>>
  /\ UNCHANGED <<ctx, gen, main, slots, wg, outer, inner, nw, readers, wwait, closed, oks, late, boom>>

Next == Cancel \/ Main \/ Consumer \/ \E i \in Items : Outer(i) \/ Inner(i)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Consumer)
        /\ \A i \in Items : WF_vars(Outer(i)) /\ WF_vars(Inner(i))

Running == {i \in Items : inner[i] \notin {"none", "ended"}}
Delivered == {out[j] : j \in DOMAIN out}
SlotsBound == slots \in 0..Slots
Bounded == ~ctx => Cardinality(Running) <= Slots
NoPanic == ~boom
Once == Cardinality(Delivered) = Len(out)
OnlyOk == Delivered \subseteq oks
LateRefused == late \cap oks = {}
NothingLost == oend => oks \subseteq Delivered
Whole == (oend /\ ~ctx) => Delivered = Writes /\ Running = {}
NotTwice == \A i \in Items : inner[i] # "none" => i < gen
Inv == SlotsBound /\ Bounded /\ NoPanic /\ Once /\ OnlyOk /\ LateRefused /\ NothingLost /\ Whole /\ NotTwice

Ends == <>oend
Settles == <>(main = "over" /\ Running = {} /\ \A i \in Items : outer[i] \in {"none", "over"})
=============================================================================
