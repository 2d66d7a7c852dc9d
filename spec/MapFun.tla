------------------------------ MODULE MapFun ------------------------------
(***************************************************************************)
(* The concurrent map (C01, C02, C03) as a function from a configuration   *)
(* and an event to the set of configurations that may follow. MapSpec      *)
(* turns these into actions (trace validation); MapImpl keeps the set of   *)
(* all configurations that explain what the algorithm has done so far      *)
(* (design-level model checking).                                          *)
(* A configuration: kv, the mapping, and op, the operations in progress.   *)
(* Every operation is Call, callbacks, one linearization step Lin, Ret.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

None == -1          \* absent value
Boom == -3          \* result of a callback that panics

Snap(f) == {<<k, f[k]>> : k \in DOMAIN f}
Watching == {"Range", "CIA", "CIP"}
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]

NewOp(kv, m, k, v, fut) ==
  [m |-> m, k |-> k, v |-> v, lin |-> FALSE, rv |-> None, rok |-> FALSE,
   comp |-> fut,                      \* <<old, result>> of callbacks: made, or predicted at the call
   hist |-> IF m \in Watching THEN Snap(kv) ELSE {}, \* <<key, value>> held since the call
   vis |-> {}, stop |-> FALSE]

\* fut: callback results predicted for the operation. An operation working on
\* contents that a concurrent Clear has replaced takes effect before that
\* Clear, even when its callback runs after Clear has returned.
Calls(c, id, m, k, v, fut) ==
  IF id \in DOMAIN c.op THEN {} ELSE {[c EXCEPT !.op = @ @@ (id :> NewOp(c.kv, m, k, v, fut))]}

\* the new contents are seen by every operation that watches the map
Watch(f, nkv) == [i \in DOMAIN f |-> IF f[i].m \in Watching THEN [f[i] EXCEPT !.hist = @ \cup Snap(nkv)] ELSE f[i]]

Effect(c, id, nkv, rv, rok) ==
  [kv |-> nkv, op |-> Watch([c.op EXCEPT ![id].lin = TRUE, ![id].rv = rv, ![id].rok = rok], nkv)]

\* the atomic step of operation id
Lins(c, id) ==
  LET o == c.op[id] k == o.k kv == c.kv IN
  IF o.lin THEN {}
  ELSE CASE o.m = "Load" -> {Effect(c, id, kv, kv[k], kv[k] # None)}
         [] o.m = "Store" -> {Effect(c, id, [kv EXCEPT ![k] = o.v], None, FALSE)}
         [] o.m = "LoadOrStore" -> IF kv[k] = None THEN {Effect(c, id, [kv EXCEPT ![k] = o.v], o.v, FALSE)}
                                   ELSE {Effect(c, id, kv, kv[k], TRUE)}
         [] o.m \in {"LoadAndDelete", "Delete"} -> {Effect(c, id, [kv EXCEPT ![k] = None], kv[k], kv[k] # None)}
         [] o.m = "Clear" -> {Effect(c, id, [x \in DOMAIN kv |-> None], None, FALSE)}
         [] o.m = "CIA" -> IF kv[k] # None THEN {Effect(c, id, kv, kv[k], TRUE)}
                           ELSE {Effect(c, id, [kv EXCEPT ![k] = p[2]], p[2], FALSE) : p \in {q \in o.comp : q[2] # Boom}}
         [] o.m = "CIP" -> IF kv[k] = None THEN {Effect(c, id, kv, None, FALSE)}
                           ELSE {Effect(c, id, [kv EXCEPT ![k] = p[2]], p[2], TRUE) :
                                  p \in {q \in o.comp : q[1] = kv[k] /\ q[2] # Boom}}
         [] OTHER -> {}

\* a compute callback may run only while the operation is undecided, with the
\* right key, on a state of the key that occurred during the call
Callbacks(c, id, k, v, r) ==
  LET o == c.op[id] IN
  IF o.m \in {"CIA", "CIP"} /\ k = o.k /\ <<k, v>> \in o.hist /\ ((o.m = "CIP") <=> (v # None))
  THEN {[c EXCEPT !.op[id].comp = @ \cup {<<v, r>>}]} ELSE {}

\* the callback panicked: no effect
Panics(c, id) ==
  IF ~c.op[id].lin /\ \E p \in c.op[id].comp : p[2] = Boom THEN {[c EXCEPT !.op = Without(@, id)]} ELSE {}

Visits(c, id, k, v, cont) ==
  LET o == c.op[id] IN
  IF o.m = "Range" /\ ~o.stop /\ k \notin o.vis /\ v # None /\ <<k, v>> \in o.hist
  THEN {[c EXCEPT !.op[id].vis = @ \cup {k}, !.op[id].stop = ~cont]} ELSE {}

RangeDone(c, o) == o.stop \/ \A k \in DOMAIN c.kv : k \in o.vis \/ <<k, None>> \in o.hist

HasResult == {"Load", "LoadOrStore", "LoadAndDelete", "CIA", "CIP"}

\* return with the given result
Rets(c, id, rv, rok) ==
  LET o == c.op[id] IN
  IF IF o.m = "Range" THEN RangeDone(c, o)
     ELSE /\ o.lin
          /\ o.m \in HasResult => (o.rv = rv /\ o.rok = rok)
  THEN {[c EXCEPT !.op = Without(@, id)]} ELSE {}
=============================================================================
