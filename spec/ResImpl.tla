------------------------------ MODULE ResImpl ------------------------------
(***************************************************************************)
(* Design of xsync.ResourceManager (a table behind a read-write lock, one  *)
(* singleflight group) run in lockstep with ResSpec: every step of the     *)
(* algorithm that a user can observe takes the corresponding step of the   *)
(* specification, and `fail' names a step the specification does not allow. *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS ResSpec, Sequences
CONSTANTS Procs, Keys, NOps, Bug

VARIABLES tab, dead,      \* the table; Close has dropped it
          wr,             \* the writer holding the lock, or 0
          fl, calls,      \* singleflight: flight of a key, results of flights
          s, fail
ivars == <<tab, dead, wr, fl, calls, s>>
vars == <<rvars, ivars, fail>>

Idle == [pc |-> "idle", m |-> "", k |-> 0, id |-> 0, n |-> 0, c |-> 0, v |-> None, err |-> None, todo |-> {}, errs |-> <<>>]
Init == /\ Init0(Keys)
        /\ tab = [k \in Keys |-> None] /\ dead = FALSE /\ wr = 0
        /\ fl = [k \in Keys |-> 0] /\ calls = <<>>
        /\ s = [p \in Procs |-> Idle] /\ fail = ""

\* take the step A of the specification, or note that it is not allowed
Sync(name, A) == IF ENABLED A THEN A /\ UNCHANGED fail ELSE fail' = name /\ UNCHANGED rvars
Go(p, b) == s' = [s EXCEPT ![p] = b]
To(p, pc) == s' = [s EXCEPT ![p].pc = pc]
Silent == UNCHANGED <<rvars, fail>>
Over(p) == Go(p, [Idle EXCEPT !.n = s[p].n])

Start(p) ==
  /\ s[p].pc = "idle" /\ s[p].n < NOps
  /\ \E m \in {"Get", "Remove", "Close"} : \E k \in IF m = "Close" THEN {CHOOSE x \in Keys : TRUE} ELSE Keys :
     LET id == 10 * p + s[p].n + 1 IN
     /\ m = "Close" => \A q \in Procs : s[q].m # "Close" /\ ~dead
     /\ Go(p, [Idle EXCEPT !.pc = CASE m = "Get" -> "do" [] m = "Remove" -> "remove" [] OTHER -> "close", !.m = m, !.k = k, !.id = id, !.n = s[p].n + 1])
     /\ Sync("call", Call(id, m, k))
     /\ UNCHANGED <<tab, dead, wr, fl, calls>>

\* singleflight.Do
Flight(p) ==
  LET b == s[p] IN
  /\ b.pc = "do" /\ Silent /\ UNCHANGED <<tab, dead, wr>>
  /\ IF fl[b.k] # 0 THEN Go(p, [b EXCEPT !.c = fl[b.k], !.pc = "wait"]) /\ UNCHANGED <<fl, calls>>
     ELSE /\ fl' = [fl EXCEPT ![b.k] = b.id]
          /\ calls' = calls @@ (b.id :> [done |-> FALSE, v |-> None, err |-> None])
          /\ To(p, "look")
Wait(p) ==
  LET b == s[p] IN
  /\ b.pc = "wait" /\ calls[b.c].done
  /\ Go(p, [b EXCEPT !.v = calls[b.c].v, !.err = calls[b.c].err, !.pc = "ret"])
  /\ Silent /\ UNCHANGED <<tab, dead, wr, fl, calls>>

Look(p) ==
  LET b == s[p] IN
  /\ b.pc = "look" /\ wr = 0 /\ Silent /\ UNCHANGED <<tab, dead, wr, calls>>
  /\ IF tab[b.k] # None
     THEN fl' = (IF Bug = 1 THEN fl ELSE [fl EXCEPT ![b.k] = 0]) /\ Go(p, [b EXCEPT !.v = tab[b.k], !.pc = "fin"])
     ELSE To(p, "create") /\ UNCHANGED fl
Create(p) ==
  LET b == s[p] IN
  /\ b.pc = "create" /\ To(p, "creating") /\ UNCHANGED <<tab, dead, wr, fl, calls>>
  /\ Sync("create begins", CreateBegin(b.id, b.k))
Created(p) ==
  LET b == s[p] IN
  /\ b.pc = "creating" /\ UNCHANGED <<tab, dead, wr, fl, calls>>
  /\ \E ok, cf \in BOOLEAN :
     /\ cf => ok
     /\ Sync("create ends", CreateEnd(b.id, b.k, ok, cf))
     /\ IF ok THEN Go(p, [b EXCEPT !.v = b.id, !.pc = "inst"]) ELSE Go(p, [b EXCEPT !.err = b.id, !.pc = "fin"])
Inst(p) ==
  LET b == s[p] IN
  /\ b.pc = "inst" /\ wr = 0 /\ UNCHANGED <<dead, wr, calls>>
  /\ Sync("install", Install(b.k))
  /\ IF dead THEN Go(p, [b EXCEPT !.v = None, !.err = Other, !.pc = IF Bug = 2 THEN "fin" ELSE "giveup"]) /\ UNCHANGED <<tab, fl>>
     ELSE /\ tab' = [tab EXCEPT ![b.k] = b.id]
          /\ fl' = (IF Bug = 3 THEN fl ELSE [fl EXCEPT ![b.k] = 0])
          /\ To(p, "fin")
Giveup(p) ==
  LET b == s[p] IN
  /\ b.pc = "giveup" /\ To(p, "fin") /\ UNCHANGED <<tab, dead, wr, fl, calls>>
  /\ Sync("late close", ResClose(b.id))
Fin(p) ==
  LET b == s[p] IN
  /\ b.pc = "fin" /\ To(p, "ret") /\ Silent /\ UNCHANGED <<tab, dead, wr>>
  /\ calls' = [calls EXCEPT ![b.id] = [done |-> TRUE, v |-> b.v, err |-> b.err]]
  /\ fl' = IF fl[b.k] = b.id THEN [fl EXCEPT ![b.k] = 0] ELSE fl
Ret(p) ==
  LET b == s[p] IN
  /\ b.pc = "ret" /\ Over(p) /\ UNCHANGED <<tab, dead, wr, fl, calls>>
  /\ CASE b.m = "Get" -> Sync("Get returns", RetGet(b.id, b.v, b.err))
       [] b.m = "Remove" -> Sync("Remove returns", RetRemove(b.id, b.v = 1))
       [] OTHER -> Sync("Close returns", RetClose(b.id, b.errs, b.errs = <<>>))

Remove(p) ==
  LET b == s[p] IN
  /\ b.pc = "remove" /\ wr = 0
  /\ Sync("Remove", Lin(b.id))
  /\ Go(p, [b EXCEPT !.v = IF tab[b.k] # None THEN 1 ELSE 0, !.pc = "ret"])
  /\ tab' = [tab EXCEPT ![b.k] = None]
  /\ UNCHANGED <<dead, wr, fl, calls>>

\* Close closes the resources one by one, holding the lock
CloseAll(p) ==
  LET b == s[p] IN
  /\ b.pc = "close" /\ wr = 0
  /\ Sync("Close", Lin(b.id))
  /\ wr' = p /\ Go(p, [b EXCEPT !.todo = {tab[k] : k \in Keys} \ {None}, !.pc = "closing"])
  /\ UNCHANGED <<tab, dead, fl, calls>>
Closing(p) ==
  LET b == s[p] IN
  /\ b.pc = "closing"
  /\ \/ /\ b.todo # {}
        /\ \E r \in b.todo :
             /\ Go(p, [b EXCEPT !.todo = @ \ {r}, !.errs = IF r \in bad THEN Append(@, r) ELSE @])
             /\ Sync("close", ResClose(r))
        /\ UNCHANGED <<tab, dead, wr>>
     \/ /\ b.todo = {} /\ To(p, "ret") /\ Silent
        /\ tab' = [k \in Keys |-> None] /\ dead' = TRUE /\ wr' = 0
  /\ UNCHANGED <<fl, calls>>

Step(p) == \/ Start(p) \/ Flight(p) \/ Wait(p) \/ Look(p) \/ Create(p) \/ Created(p) \/ Inst(p) \/ Giveup(p)
           \/ Fin(p) \/ Ret(p) \/ Remove(p) \/ CloseAll(p) \/ Closing(p)
Done == \A p \in Procs : s[p].pc = "idle" /\ (s[p].n = NOps)
Next == (fail = "" /\ \E p \in Procs : Step(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Allowed == fail = ""
Same == held = tab \/ \E p \in Procs : s[p].pc = "closing"
AtRest == (\A p \in Procs : s[p].pc = "idle") => Quiet /\ \A k \in Keys : fl[k] = 0
=============================================================================
