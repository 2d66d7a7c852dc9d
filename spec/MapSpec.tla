------------------------------ MODULE MapSpec ------------------------------
(* The concurrent map as a state machine: the steps of MapFun as actions.  *)
EXTENDS MapFun

VARIABLES kv,       \* [keys -> value or None]
          op        \* [ids of operations in progress -> record]
mvars == <<kv, op>>

Cfg == [kv |-> kv, op |-> op]
Become(S) == \E c \in S : kv' = c.kv /\ op' = c.op

Call(id, m, k, v, fut) == Become(Calls(Cfg, id, m, k, v, fut))
Lin(id) == Become(Lins(Cfg, id))
Callback(id, k, v, r) == Become(Callbacks(Cfg, id, k, v, r))
Panic(id) == Become(Panics(Cfg, id))
Visit(id, k, v, cont) == Become(Visits(Cfg, id, k, v, cont))
Ret(id, rv, rok) == Become(Rets(Cfg, id, rv, rok))
=============================================================================
