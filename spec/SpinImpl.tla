------------------------------ MODULE SpinImpl ------------------------------
(***************************************************************************)
(* Design of the spin lock: one word, compare-and-swap, back-off. Each     *)
(* client calls Lock or TryLock a few times and unlocks what it got.       *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, Rounds, MaxBack, Bug
VARIABLES word, pc, kind, left, back, spin, got, exact
vars == <<word, pc, kind, left, back, spin, got, exact>>

\* pc: "idle" "try" "set" (Bug 1: between test and set) "spin" "in" "out"
Init == /\ word = 0 /\ pc = [p \in Procs |-> "idle"] /\ kind = [p \in Procs |-> "Lock"]
        /\ left = [p \in Procs |-> Rounds] /\ back = [p \in Procs |-> 1] /\ spin = [p \in Procs |-> 0]
        /\ got = [p \in Procs |-> FALSE] /\ exact = TRUE

Set(f, p, v) == [f EXCEPT ![p] = v]
Holders == {p \in Procs : pc[p] \in {"in", "out"}}

Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E k \in {"Lock", "TryLock"} : kind' = Set(kind, p, k)
            /\ pc' = Set(pc, p, "try") /\ left' = Set(left, p, left[p] - 1) /\ back' = Set(back, p, 1)
            /\ UNCHANGED <<word, spin, got, exact>>

Won(p) == pc' = Set(pc, p, "in") /\ got' = Set(got, p, TRUE) /\ UNCHANGED <<spin, back>>
Lost(p) == IF kind[p] = "TryLock"
           THEN pc' = Set(pc, p, "idle") /\ got' = Set(got, p, FALSE) /\ UNCHANGED <<spin, back>>
           \* Bug 3: after waiting long enough, in it goes
           ELSE IF Bug = 3 /\ back[p] >= MaxBack THEN Won(p)
           ELSE /\ pc' = Set(pc, p, "spin") /\ spin' = Set(spin, p, back[p])
                /\ back' = Set(back, p, IF back[p] < MaxBack THEN back[p] * 2 ELSE back[p])
                /\ UNCHANGED got

\* TryLock is exact: it succeeds if and only if nobody holds the lock at that moment
Try(p) == /\ pc[p] = "try" /\ UNCHANGED <<kind, left>>
          /\ IF word = 0
             THEN IF Bug = 1 THEN pc' = Set(pc, p, "set") /\ UNCHANGED <<word, spin, back, got, exact>>
                  ELSE word' = 1 /\ Won(p) /\ exact' = (exact /\ Holders = {})
             ELSE Lost(p) /\ exact' = (exact /\ Holders # {}) /\ UNCHANGED word
TrySet(p) == /\ pc[p] = "set" /\ word' = 1 /\ Won(p) /\ UNCHANGED <<kind, left, exact>>
Spin(p) == /\ pc[p] = "spin" /\ spin' = Set(spin, p, spin[p] - 1)
           /\ pc' = IF spin[p] = 1 THEN Set(pc, p, "try") ELSE pc
           /\ UNCHANGED <<word, kind, left, back, got, exact>>
Leave(p) == /\ pc[p] = "in" /\ pc' = Set(pc, p, "out") /\ UNCHANGED <<word, kind, left, back, spin, got, exact>>
\* the holder is a holder until the word is 0. Bug 2: only one round in two unlocks
Unlock(p) == /\ pc[p] = "out" /\ word' = IF Bug = 2 /\ left[p] % 2 = 0 THEN word ELSE 0
             /\ pc' = Set(pc, p, "idle") /\ UNCHANGED <<kind, left, back, spin, got, exact>>

Step(p) == Begin(p) \/ Try(p) \/ TrySet(p) \/ Spin(p) \/ Leave(p) \/ Unlock(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Mutex == Cardinality(Holders) <= 1
Exact == exact
Word == (word = 1) = (Holders # {})
Inv == Mutex /\ Exact /\ Word
\* once the holders are done, every waiting Lock returns
Done == <>(\A p \in Procs : pc[p] = "idle" /\ left[p] = 0)
=============================================================================
