------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* Design of the byte-slice pool: one pool per capacity, allocation from   *)
(* the pool of the wanted capacity or fresh, any slice may be freed,       *)
(* also a part of one that was handed out or one of the user's own. A      *)
(* slice is <<block, offset, capacity>>.                                   *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Users, Caps, MaxBlocks, Bug
VARIABLES pools,   \* [capacity -> slices waiting]
          own,     \* [user -> slices it may use]
          blocks   \* blocks of memory so far: capacity of each
vars == <<pools, own, blocks>>
Max(a, b) == IF a > b THEN a ELSE b
MaxCap == CHOOSE c \in Caps : \A d \in Caps : d <= c

Init == /\ pools = [c \in 0..MaxCap |-> {}] /\ own = [u \in Users |-> {}] /\ blocks = [b \in {} |-> 0]

\* the class a slice is put into. Bug 1: the next even one
Class(c) == IF Bug = 1 THEN c + (c % 2) ELSE c

Malloc(u, size, cap) ==
  LET c == Class(Max(size, cap)) IN
  /\ c \in DOMAIN pools
  /\ \/ \E s \in pools[c] :
          /\ pools' = IF Bug = 2 THEN pools ELSE [pools EXCEPT ![c] = @ \ {s}]
          /\ own' = [own EXCEPT ![u] = @ \cup {<<s[1], s[2], s[3]>>}]
          /\ UNCHANGED blocks
     \/ /\ Cardinality(DOMAIN blocks) < MaxBlocks
        /\ blocks' = [b \in DOMAIN blocks \cup {Cardinality(DOMAIN blocks) + 1} |->
                      IF b \in DOMAIN blocks THEN blocks[b] ELSE c]
        /\ own' = [own EXCEPT ![u] = @ \cup {<<Cardinality(DOMAIN blocks) + 1, 0, c>>}]
        /\ UNCHANGED pools

\* memory of the user's own
Make(u, c) == /\ Cardinality(DOMAIN blocks) < MaxBlocks
              /\ blocks' = [b \in DOMAIN blocks \cup {Cardinality(DOMAIN blocks) + 1} |->
                            IF b \in DOMAIN blocks THEN blocks[b] ELSE c]
              /\ own' = [own EXCEPT ![u] = @ \cup {<<Cardinality(DOMAIN blocks) + 1, 0, c>>}]
              /\ UNCHANGED pools
\* a user may cut a slice in two
Cut(u, s, k) == /\ s \in own[u] /\ k \in 1..(s[3] - 1)
                /\ own' = [own EXCEPT ![u] = (@ \ {s}) \cup {<<s[1], s[2], k>>, <<s[1], s[2] + k, s[3] - k>>}]
                /\ UNCHANGED <<pools, blocks>>
\* Bug 3: the whole block is put back
Free(u, s) == /\ s \in own[u] /\ own' = [own EXCEPT ![u] = @ \ {s}]
              /\ LET x == IF Bug = 3 THEN <<s[1], 0, blocks[s[1]]>> ELSE s
                     c == Class(x[3])
                 IN IF c \in DOMAIN pools THEN pools' = [pools EXCEPT ![c] = @ \cup {x}] ELSE UNCHANGED pools
              /\ UNCHANGED blocks

Next == \E u \in Users :
          \/ \E a, b \in Caps : Malloc(u, a, b)
          \/ \E c \in Caps : Make(u, c)
          \/ \E s \in own[u] : Free(u, s) \/ \E k \in 1..MaxCap : Cut(u, s, k)
Spec == Init /\ [][Next]_vars

Bytes(s) == {<<s[1], i>> : i \in s[2]..(s[2] + s[3] - 1)}
Claims == {<<u, s>> : u \in Users, s \in UNION {own[v] : v \in Users}}
All == {x \in Claims : x[2] \in own[x[1]]}
Exclusive == \A x, y \in All : x # y => Bytes(x[2]) \cap Bytes(y[2]) = {}
\* whoever finds a slice in the pool of a capacity gets that much
Enough == \A c \in DOMAIN pools : \A s \in pools[c] : s[3] >= c
\* nothing waits in the pools that somebody uses
Apart == \A c \in DOMAIN pools : \A s \in pools[c] : \A x \in All : Bytes(x[2]) \cap Bytes(s) = {}
Inv == Exclusive /\ Enough /\ Apart
=============================================================================
