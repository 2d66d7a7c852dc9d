------------------------------ MODULE ResSpec ------------------------------
(***************************************************************************)
(* Abstract specification of the resource manager (C05). Resources are     *)
(* named by the Get call that created them.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

None == -1
Other == -2           \* an error that is not a creation's error

VARIABLES held,       \* [keys -> resource the manager holds or None]
          mk,         \* [keys -> creation in progress: <<state, id>>]
          op,         \* operations in progress
          closed,     \* Close has taken effect
          made,       \* resources created and, after Close, not yet closed: see end of Close
          lose,       \* resources created but not installed because of Close
          gone,       \* resources closed
          bad         \* resources whose Close fails
rvars == <<held, mk, op, closed, made, lose, gone, bad>>

Init0(K) == /\ held = [k \in K |-> None] /\ mk = [k \in K |-> <<"none", 0>>]
            /\ op = <<>> /\ closed = FALSE /\ made = {} /\ lose = {} /\ gone = {} /\ bad = {}

\* res: resources the key held at some moment of the call; errs: creation
\* failures the call may report
NewOp(m, k) == [m |-> m, k |-> k, lin |-> FALSE, ok |-> FALSE,
                res |-> IF m = "Get" /\ held[k] # None THEN {held[k]} ELSE {},
                errs |-> IF m = "Get" /\ mk[k][1] = "failed" THEN {mk[k][2]} ELSE {},
                todo |-> {}, mine |-> {}, ran |-> FALSE]

Call(id, m, k) == /\ id \notin DOMAIN op
                  /\ op' = op @@ (id :> NewOp(m, k))
                  /\ UNCHANGED <<held, mk, closed, made, lose, gone, bad>>

\* a creation may start only if none is running and the key holds nothing
CreateBegin(id, k) ==
  /\ op[id].m = "Get" /\ op[id].k = k /\ ~op[id].ran
  /\ held[k] = None /\ mk[k][1] \in {"none", "failed"}
  /\ mk' = [mk EXCEPT ![k] = <<"run", id>>]
  /\ op' = [op EXCEPT ![id].ran = TRUE]
  /\ UNCHANGED <<held, closed, made, lose, gone, bad>>

CreateEnd(id, k, ok, cf) ==
  /\ mk[k] = <<"run", id>>
  /\ mk' = [mk EXCEPT ![k] = <<IF ok THEN "made" ELSE "failed", id>>]
  /\ made' = IF ok THEN made \cup {id} ELSE made
  /\ bad' = IF cf THEN bad \cup {id} ELSE bad
  /\ op' = IF ok THEN op
           ELSE [i \in DOMAIN op |-> IF op[i].m = "Get" /\ op[i].k = k THEN [op[i] EXCEPT !.errs = @ \cup {id}] ELSE op[i]]
  /\ UNCHANGED <<held, closed, lose, gone>>

\* silent: the created resource becomes the key's resource, or is given up
\* because the manager has been closed
Install(k) ==
  /\ mk[k][1] = "made"
  /\ mk' = [mk EXCEPT ![k] = <<"none", 0>>]
  /\ IF closed
     THEN lose' = lose \cup {mk[k][2]} /\ UNCHANGED <<held, op>>
     ELSE /\ held' = [held EXCEPT ![k] = mk[k][2]] /\ UNCHANGED lose
          /\ op' = [i \in DOMAIN op |-> IF op[i].m = "Get" /\ op[i].k = k
                                        THEN [op[i] EXCEPT !.res = @ \cup {mk[k][2]}] ELSE op[i]]
  /\ UNCHANGED <<closed, made, gone, bad>>

\* silent: Remove and Close take effect
Lin(id) ==
  LET o == op[id] IN
  /\ ~o.lin
  /\ CASE o.m = "Remove" -> /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].ok = held[o.k] # None]
                            /\ held' = [held EXCEPT ![o.k] = None]
                            /\ UNCHANGED closed
       [] o.m = "Close" -> LET s == {held[k] : k \in DOMAIN held} \ {None} IN
                           /\ op' = [op EXCEPT ![id].lin = TRUE, ![id].todo = s, ![id].mine = s]
                           /\ held' = [k \in DOMAIN held |-> None]
                           /\ closed' = TRUE
       [] OTHER -> FALSE
  /\ UNCHANGED <<mk, made, lose, gone, bad>>

\* a resource is closed: by the Close that took it, or because it came too late
ResClose(r) ==
  /\ r \notin gone
  /\ gone' = gone \cup {r}
  /\ \/ /\ r \in lose /\ lose' = lose \ {r} /\ UNCHANGED op
     \/ /\ UNCHANGED lose
        /\ \E id \in DOMAIN op : r \in op[id].todo /\ op' = [op EXCEPT ![id].todo = @ \ {r}]
  /\ UNCHANGED <<held, mk, closed, made, bad>>

Drop(id) == op' = [i \in DOMAIN op \ {id} |-> op[i]]

RetGet(id, v, err) ==
  LET o == op[id] IN
  /\ o.m = "Get"
  /\ \/ /\ err = None /\ v \in o.res
        /\ UNCHANGED mk
     \/ /\ v = None /\ err \in o.errs
        \* a failure is not remembered once its creator has returned
        /\ mk' = IF mk[o.k] = <<"failed", id>> THEN [mk EXCEPT ![o.k] = <<"none", 0>>] ELSE mk
     \/ /\ v = None /\ err = Other /\ closed
        \* whatever this call created has been closed by now
        /\ id \notin lose /\ mk[o.k] # <<"made", id>> /\ mk[o.k] # <<"run", id>>
        /\ UNCHANGED mk
  /\ Drop(id)
  /\ UNCHANGED <<held, closed, made, lose, gone, bad>>

RetRemove(id, ok) == /\ op[id].m = "Remove" /\ op[id].lin /\ op[id].ok = ok
                     /\ Drop(id) /\ UNCHANGED <<held, mk, closed, made, lose, gone, bad>>

\* errs: the reported errors, as a sequence; where the errors of all resources
\* are one and the same, each is numbered 0, and there is one per failure
RetClose(id, errs, isnil) ==
  /\ op[id].m = "Close" /\ op[id].lin /\ op[id].todo = {}
  /\ \/ {errs[i] : i \in DOMAIN errs} = op[id].mine \cap bad
     \/ DOMAIN errs # {} /\ \A i \in DOMAIN errs : errs[i] = 0
  /\ Cardinality(DOMAIN errs) = Cardinality(op[id].mine \cap bad)
  /\ isnil = (op[id].mine \cap bad = {})
  /\ Drop(id) /\ UNCHANGED <<held, mk, closed, made, lose, gone, bad>>

\* nothing is left behind
Quiet == /\ DOMAIN op = {} /\ lose = {}
         /\ \A k \in DOMAIN mk : mk[k][1] \in {"none", "failed"}
=============================================================================
