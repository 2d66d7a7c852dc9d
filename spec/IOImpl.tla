------------------------------- MODULE IOImpl -------------------------------
(***************************************************************************)
(* Design of the pooled buffered writers (and, with source for sink and    *)
(* read-ahead for bytes held back, of the readers): Get takes any recycled *)
(* one that is large enough, or makes one, and binds it to the user's      *)
(* sink; Put unbinds it and drops what it holds. The pool may lose what it *)
(* is given.                                                               *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Users, Sizes, MaxObj, Rounds, Bug
VARIABLES obj,    \* writers made so far: [size, sink, holds]: holds is the set of sessions whose bytes it holds
          pool,   \* those waiting
          has,    \* [user -> the writer it works with, or 0]
          want,   \* [user -> size asked for]
          sess,   \* [user -> number of the session]: a session has a sink of its own
          fate    \* sessions whose bytes came out, with the sink they came to
vars == <<obj, pool, has, want, sess, fate>>
None == <<0, 0>>
Objs == 1..Cardinality(DOMAIN obj)
Sess(u) == <<u, sess[u]>>

Init == /\ obj = [o \in {} |-> 0] /\ pool = {} /\ has = [u \in Users |-> 0] /\ want = [u \in Users |-> 0]
        /\ sess = [u \in Users |-> 0] /\ fate = {}

Bound(w, s) == [w EXCEPT !.sink = s, !.holds = IF Bug = 2 THEN @ ELSE {}]
Get(u, n) ==
  /\ has[u] = 0 /\ sess[u] < Rounds /\ sess' = [sess EXCEPT ![u] = @ + 1] /\ want' = [want EXCEPT ![u] = n] /\ UNCHANGED fate
  /\ LET s == <<u, sess[u] + 1>> IN
     \/ \E o \in pool :
          \* Bug 1: the size is not looked at
          /\ Bug = 1 \/ obj[o].size >= n
          /\ pool' = (IF Bug = 3 THEN pool ELSE pool \ {o})
          /\ obj' = [obj EXCEPT ![o] = Bound(@, s)] /\ has' = [has EXCEPT ![u] = o]
     \/ /\ Cardinality(DOMAIN obj) < MaxObj
        /\ obj' = [o \in 1..(Cardinality(DOMAIN obj) + 1) |->
                   IF o \in DOMAIN obj THEN obj[o] ELSE [size |-> n, sink |-> s, holds |-> {}]]
        /\ has' = [has EXCEPT ![u] = Cardinality(DOMAIN obj) + 1] /\ UNCHANGED pool
Write(u) == /\ has[u] # 0 /\ obj' = [obj EXCEPT ![has[u]].holds = @ \cup {Sess(u)}] /\ UNCHANGED <<pool, has, want, sess, fate>>
Flush(u) == /\ has[u] # 0 /\ fate' = fate \cup {<<x, obj[has[u]].sink>> : x \in obj[has[u]].holds}
            /\ obj' = [obj EXCEPT ![has[u]].holds = {}] /\ UNCHANGED <<pool, has, want, sess>>
Put(u) == /\ has[u] # 0
          /\ obj' = [obj EXCEPT ![has[u]].sink = None, ![has[u]].holds = IF Bug = 2 THEN @ ELSE {}]
          /\ pool' = pool \cup {has[u]} /\ has' = [has EXCEPT ![u] = 0] /\ UNCHANGED <<want, sess, fate>>
Lose == \E o \in pool : pool' = pool \ {o} /\ UNCHANGED <<obj, has, want, sess, fate>>
Next == Lose \/ \E u \in Users : Write(u) \/ Flush(u) \/ Put(u) \/ \E n \in Sizes : Get(u, n)
Spec == Init /\ [][Next]_vars

Inv == /\ \A u, v \in Users : u # v /\ has[u] # 0 => has[u] # has[v]
       /\ \A u \in Users : has[u] # 0 => /\ has[u] \notin pool
                                         /\ obj[has[u]].sink = Sess(u)
                                         /\ obj[has[u]].holds \subseteq {Sess(u)}
                                         /\ obj[has[u]].size >= want[u]
       \* what comes out comes out where its session writes to
       /\ \A f \in fate : f[1] = f[2]
       \* what waits is bound to nothing and holds nothing
       /\ \A o \in pool : obj[o].sink = None /\ obj[o].holds = {}
=============================================================================
