------------------------------ MODULE RingImpl ------------------------------
(***************************************************************************)
(* Design of the ring: Add writes into a slot and moves the index under    *)
(* the writers' lock; Take reads the index and then slot after slot under  *)
(* the readers' lock. Every step is one access to memory.                  *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Cap, Adders, NAdds, Takers, Bug
Vals == 0..99
VARIABLES elem, index, wlock, rlocks,   \* the ring and who holds its lock
          apc, left,                    \* Adders: "idle" "write" "move" ; values still to add
          tpc, snap, got,               \* Takers: "idle" "read" "copy" "over"; the index read; the values copied
          added, lo,                    \* the order of all Adds; how many were over when the Take began
          hi                            \* how many had begun when it ended
vars == <<elem, index, wlock, rlocks, apc, left, tpc, snap, got, added, lo, hi>>

Init == /\ elem = [i \in 0..(Cap - 1) |-> 0] /\ index = 0 /\ wlock = FALSE /\ rlocks = 0
        /\ apc = [a \in Adders |-> "idle"] /\ left = [a \in Adders |-> NAdds]
        /\ tpc = [t \in Takers |-> "idle"] /\ snap = [t \in Takers |-> 0] /\ got = [t \in Takers |-> <<>>]
        /\ added = <<>> /\ lo = [t \in Takers |-> 0] /\ hi = [t \in Takers |-> 0]

Val(a) == 10 * a + left[a]
Add(a) ==

  \* Bug 1: Add holds no lock
  \/ /\ apc[a] = "idle" /\ left[a] > 0 /\ (Bug = 1 \/ (~wlock /\ rlocks = 0))
     /\ wlock' = (Bug # 1) /\ apc' = [apc EXCEPT ![a] = "write"]
     /\ UNCHANGED <<elem, index, left, added, rlocks, tpc, snap, got, lo, hi>>
  \/ /\ apc[a] = "write" /\ elem' = [elem EXCEPT ![index % Cap] = Val(a)] /\ apc' = [apc EXCEPT ![a] = "move"]
     /\ UNCHANGED <<index, wlock, left, added, rlocks, tpc, snap, got, lo, hi>>
  \/ /\ apc[a] = "move" /\ index' = index + 1 /\ wlock' = FALSE /\ added' = Append(added, Val(a))
     /\ left' = [left EXCEPT ![a] = @ - 1] /\ apc' = [apc EXCEPT ![a] = "idle"]
     /\ UNCHANGED <<elem, rlocks, tpc, snap, got, lo, hi>>

Size(i) == IF i > Cap THEN Cap ELSE i
\* Bug 3: a full ring is read from its first slot when the index is a multiple short of wrapping
Start(i) == IF i > Cap THEN (IF Bug = 3 THEN (i - 1) % Cap ELSE i % Cap) ELSE 0
Take(t) ==
  \* Bug 2: Take holds no lock
  \/ /\ tpc[t] = "idle" /\ (Bug = 2 \/ ~wlock) /\ rlocks' = (IF Bug = 2 THEN rlocks ELSE rlocks + 1)
     /\ lo' = [lo EXCEPT ![t] = Len(added)] /\ tpc' = [tpc EXCEPT ![t] = "read"]
     /\ UNCHANGED <<elem, index, wlock, apc, left, snap, got, added, hi>>
  \/ /\ tpc[t] = "read" /\ snap' = [snap EXCEPT ![t] = index] /\ tpc' = [tpc EXCEPT ![t] = "copy"]
     /\ UNCHANGED <<elem, index, wlock, rlocks, apc, left, got, added, lo, hi>>
  \/ /\ tpc[t] = "copy" /\ Len(got[t]) < Size(snap[t])
     /\ got' = [got EXCEPT ![t] = Append(@, elem[(Start(snap[t]) + Len(@)) % Cap])]
     /\ UNCHANGED <<elem, index, wlock, rlocks, apc, left, tpc, snap, added, lo, hi>>
  \/ /\ tpc[t] = "copy" /\ Len(got[t]) = Size(snap[t]) /\ tpc' = [tpc EXCEPT ![t] = "over"]
     /\ rlocks' = (IF Bug = 2 THEN rlocks ELSE rlocks - 1) /\ hi' = [hi EXCEPT ![t] = Len(added)]
     /\ UNCHANGED <<elem, index, wlock, apc, left, snap, got, added, lo>>

Next == (\E a \in Adders : Add(a)) \/ \E t \in Takers : Take(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LastOf(n) == SubSeq(added, IF n > Cap THEN n - Cap + 1 ELSE 1, n)
\* what a Take returned is the end of the order of Adds, as of a moment of the call
Inv == \A t \in Takers : tpc[t] = "over" => \E n \in lo[t]..hi[t] : got[t] = LastOf(n)
Done == <>(\A a \in Adders : left[a] = 0) /\ <>(\A t \in Takers : tpc[t] = "over")
=============================================================================
