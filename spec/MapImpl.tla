------------------------------ MODULE MapImpl ------------------------------
(***************************************************************************)
(* Design of xsync.Map (read map, dirty map, misses, expunged entries, one *)
(* mutex): every interleaving of a few operations, started in every        *)
(* consistent shape of the map, is checked against MapFun. `cf' holds all  *)
(* configurations of the specification that explain the history so far;    *)
(* the design is linearizable iff it never becomes empty.                  *)
(*                                                                         *)
(* Bug selects a deliberately broken variant (0: the algorithm).           *)
(***************************************************************************)
EXTENDS MapFun, Sequences
CONSTANTS Procs, Keys, Meths, NOps, Bug, Booms

Gone == -2          \* expunged
NilMap == [x \in Keys |-> 0]
Count(f) == Cardinality({x \in Keys : f[x] # 0})
Dom(f) == {x \in Keys : f[x] # 0}
MaxE == Cardinality(Keys) + Cardinality(Procs) * NOps
Ids == {10 * p + n : p \in Procs, n \in 1..NOps}
V0(x) == 100 + x    \* value stored for key x at the start

\* what callback of operation id makes of an old value
F(id, o) == IF o = None THEN id ELSE 1000 * id + (o % 1000)
Vals0 == {V0(x) : x \in Keys} \cup Ids
Vals == Vals0 \cup {F(j, o) : j \in Ids, o \in Vals0}
Fut(id, m) == CASE m = "CIA" -> {<<None, id>>}
                [] m = "CIP" -> {<<o, F(id, o)>> : o \in Vals}
                [] OTHER -> {}

\* all configurations reachable by linearization steps
RECURSIVE Closed(_)
Closed(S) == LET T == S \cup UNION {UNION {Lins(c, i) : i \in DOMAIN c.op} : c \in S} IN IF T = S THEN S ELSE Closed(T)

VARIABLES g,        \* shared: read map, amended, dirty map (hasd: not nil), misses, entries P, mutex
          s,        \* per process: program counter and locals
          cf,       \* configurations explaining the history
          cbs,      \* callbacks made: <<operation, old value>>
          cbok      \* every computed result stems from a callback on the value it replaced
vars == <<g, s, cf, cbs, cbok>>

(* A shape gives each key one of: 0 absent, 1 live in read, 2 deleted in    *)
(* read (nil), 3 expunged in read, 4 live in dirty only, 5 nil in dirty only *)
HasDirty(h) == \E x \in Keys : h[x] \in {3, 4, 5}
Starts == {st \in [Keys -> 0..5] \X BOOLEAN \X (0..1) :
   LET h == st[1] d == st[2] q == st[3] IN
   /\ HasDirty(h) => d
   /\ d => q < Cardinality({x \in Keys : h[x] \in {1, 2, 4, 5}})
   /\ ~d => q = 0}

Idle == [pc |-> "idle", m |-> "", k |-> 0, id |-> 0, n |-> 0, rm |-> NilMap, ra |-> FALSE, e |-> 0, x |-> None,
         nv |-> None, todo |-> {}, slow |-> FALSE, rv |-> None, rok |-> FALSE, y |-> 0]

Init == \E st \in Starts :
  LET h == st[1] IN
  /\ g = [readm |-> [x \in Keys |-> IF h[x] \in {1, 2, 3} THEN x ELSE 0], amended |-> st[2], hasd |-> st[2],
          dirty |-> IF st[2] THEN [x \in Keys |-> IF h[x] \in {1, 2, 4, 5} THEN x ELSE 0] ELSE NilMap,
          misses |-> st[3], mu |-> 0, nexte |-> Cardinality(Keys) + 1,
          P |-> [e \in 1..MaxE |-> IF e \in Keys THEN (CASE h[e] \in {1, 4} -> V0(e) [] h[e] = 3 -> Gone [] OTHER -> None) ELSE None]]
  /\ cf = {[kv |-> [x \in Keys |-> IF h[x] \in {1, 4} THEN V0(x) ELSE None], op |-> <<>>]}
  /\ s = [p \in Procs |-> Idle]
  /\ cbs = {} /\ cbok = TRUE

Promoted(a) == [a EXCEPT !.readm = a.dirty, !.amended = FALSE, !.dirty = NilMap, !.hasd = FALSE, !.misses = 0]
Missed(a) == IF a.misses + 1 < Count(a.dirty) THEN [a EXCEPT !.misses = @ + 1] ELSE Promoted(a)

\* a step without an observable event
Quiet(p, a, b) == g' = a /\ s' = [s EXCEPT ![p] = b] /\ UNCHANGED <<cf, cbs, cbok>>
At(b, pc) == [b EXCEPT !.pc = pc]

\* the operation returns
Done(p, a, v, ok) ==
  LET b == s[p] IN
  /\ g' = a
  /\ s' = [s EXCEPT ![p] = [Idle EXCEPT !.n = b.n]]
  /\ cf' = Closed(UNION {Rets(c, b.id, v, ok) : c \in cf})
  /\ cbok' = (cbok /\ (b.m = "CIA" /\ v # None /\ ~ok => <<b.id, None>> \in cbs)
                   /\ (b.m = "CIP" /\ ok => \E o \in Vals : F(b.id, o) = v /\ <<b.id, o>> \in cbs))
  /\ UNCHANGED cbs

\* ... after giving up the mutex when it is held
End(p, a, v, ok) == IF s[p].slow THEN Quiet(p, a, [s[p] EXCEPT !.pc = "unlock", !.rv = v, !.rok = ok]) ELSE Done(p, a, v, ok)

Start(p) ==
  /\ s[p].pc = "idle" /\ s[p].n < NOps
  /\ \E m \in Meths : \E k \in IF m \in {"Range", "Clear"} THEN {CHOOSE y \in Keys : TRUE} ELSE Keys :
     LET id == 10 * p + s[p].n + 1 IN
     /\ s' = [s EXCEPT ![p] = [Idle EXCEPT !.pc = IF m = "Clear" THEN "lock" ELSE "fast", !.m = m, !.k = k, !.id = id, !.n = s[p].n + 1]]
     /\ cf' = Closed(UNION {Calls(c, id, m, k, id, Fut(id, m)) : c \in cf})
     /\ UNCHANGED <<g, cbs, cbok>>

\* the lock-free beginning: the read map as a whole is read atomically
Fast(p) ==
  LET b == s[p] e == g.readm[b.k] c == [b EXCEPT !.e = e] IN
  /\ b.pc = "fast"
  /\ CASE b.m = "Range" -> IF g.amended THEN Quiet(p, g, At(b, "lock"))
                           ELSE Quiet(p, g, [b EXCEPT !.pc = "range", !.rm = g.readm, !.todo = Dom(g.readm)])
       [] b.m \in {"Load", "LoadAndDelete"} -> IF e = 0 /\ g.amended THEN Quiet(p, g, At(c, "lock"))
                                               ELSE IF e = 0 THEN Done(p, g, None, FALSE) ELSE Quiet(p, g, At(c, "entry"))
       [] OTHER -> Quiet(p, g, At(c, IF e = 0 THEN "lock" ELSE "entry"))

\* the first look at the entry
Entry(p) ==
  LET b == s[p] x == g.P[b.e] c == [b EXCEPT !.x = x, !.nv = b.id] gone == x = Gone none == x \in {None, Gone} IN
  /\ b.pc = "entry"
  /\ CASE b.m = "Load" -> IF none THEN Done(p, g, None, FALSE) ELSE Done(p, g, x, TRUE)
       [] b.m = "LoadAndDelete" -> IF none THEN Done(p, g, None, FALSE) ELSE Quiet(p, g, At(c, "cas"))
       [] b.m = "Store" -> Quiet(p, g, At(c, IF gone /\ Bug # 5 THEN "lock" ELSE "cas"))
       [] b.m \in {"LoadOrStore", "CIA"} ->
            IF gone THEN (IF b.slow THEN End(p, g, None, FALSE) ELSE Quiet(p, g, At(b, "lock")))
            ELSE IF x # None THEN End(p, g, x, TRUE)
            ELSE Quiet(p, g, At(c, IF b.m = "CIA" THEN "call" ELSE "cas"))
       [] b.m = "CIP" ->
            IF gone THEN (IF b.slow THEN End(p, g, None, FALSE) ELSE Quiet(p, g, At(b, "lock")))
            ELSE IF x = None THEN End(p, g, None, FALSE)
            ELSE Quiet(p, g, At(c, "call"))

\* the user's function; it may panic
CallF(p) ==
  LET b == s[p] old == IF b.m = "CIA" THEN None ELSE b.x r == F(b.id, old) IN
  /\ b.pc = "call"
  /\ cbs' = cbs \cup {<<b.id, old>>}
  /\ UNCHANGED cbok
  /\ \/ /\ cf' = Closed(UNION {Callbacks(c, b.id, b.k, old, r) : c \in cf})
        /\ s' = [s EXCEPT ![p].pc = IF b.e = 0 THEN "insert" ELSE "cas", ![p].nv = r]
        /\ g' = g
     \/ /\ Booms
        /\ cf' = LET d == UNION {Callbacks(c, b.id, b.k, old, Boom) : c \in cf} IN Closed(UNION {Panics(c, b.id) : c \in d})
        /\ s' = [s EXCEPT ![p] = [Idle EXCEPT !.n = b.n]]
        /\ g' = IF b.slow /\ Bug # 6 THEN [g EXCEPT !.mu = 0] ELSE g

Cas(p) ==
  LET b == s[p] hit == g.P[b.e] = (IF b.m \in {"LoadOrStore", "CIA"} THEN None ELSE b.x)
      put(v) == [g EXCEPT !.P[b.e] = v] IN
  /\ b.pc = "cas"
  /\ CASE b.m = "LoadAndDelete" -> IF hit THEN Done(p, put(None), b.x, TRUE) ELSE Quiet(p, g, At(b, "entry"))
       [] b.m = "Store" -> IF hit THEN Done(p, put(b.id), None, FALSE) ELSE Quiet(p, g, At(b, "entry"))
       [] OTHER -> IF hit THEN End(p, put(b.nv), b.nv, b.m = "CIP") ELSE Quiet(p, g, At(b, "again"))

\* after a failed compare-and-swap
Again(p) ==
  LET b == s[p] x == g.P[b.e] IN
  /\ b.pc = "again"
  /\ CASE x = Gone \/ (b.m = "CIP" /\ x = None) -> IF b.slow THEN End(p, g, None, FALSE) ELSE Quiet(p, g, At(b, "lock"))
       [] b.m = "CIP" -> Quiet(p, g, [b EXCEPT !.x = x, !.pc = IF Bug = 1 THEN "cas" ELSE "call"])
       [] x # None -> End(p, g, x, TRUE)
       [] OTHER -> Quiet(p, g, At(b, "cas"))

Lock(p) == s[p].pc = "lock" /\ g.mu = 0 /\ Quiet(p, [g EXCEPT !.mu = p], At(s[p], "crit"))

\* with the mutex: everything up to the first access to an entry
Crit(p) ==
  LET b == s[p] IN
  /\ b.pc = "crit"
  /\ CASE b.m = "Clear" -> Quiet(p, [g EXCEPT !.readm = NilMap, !.amended = FALSE, !.dirty = NilMap, !.hasd = FALSE, !.misses = 0], At(b, "unlock"))
       [] b.m = "Range" -> LET a == IF g.amended THEN Promoted(g) ELSE g IN
                           Quiet(p, a, [b EXCEPT !.rm = a.readm, !.todo = Dom(a.readm), !.pc = "unlock"])
       [] b.m \in {"Load", "LoadAndDelete"} ->
            IF (g.readm[b.k] # 0 \/ ~g.amended) /\ Bug # 2 THEN Quiet(p, g, [b EXCEPT !.e = g.readm[b.k], !.pc = "unlock"])
            ELSE LET d == IF b.m = "LoadAndDelete" THEN [g EXCEPT !.dirty[b.k] = 0] ELSE g IN
                 Quiet(p, Missed(d), [b EXCEPT !.e = g.dirty[b.k], !.pc = "unlock"])
       [] g.readm[b.k] # 0 -> Quiet(p, g, [b EXCEPT !.e = g.readm[b.k], !.slow = TRUE, !.pc = "unexp"])
       [] g.dirty[b.k] # 0 -> Quiet(p, g, [b EXCEPT !.e = g.dirty[b.k], !.slow = TRUE, !.pc = IF b.m = "Store" THEN "store" ELSE "entry"])
       [] b.m = "CIP" -> Quiet(p, g, [b EXCEPT !.rv = None, !.rok = FALSE, !.pc = "unlock"])
       [] OTHER -> LET c == [b EXCEPT !.e = 0, !.slow = TRUE, !.nv = b.id] IN
                   IF ~g.amended THEN Quiet(p, g, [c EXCEPT !.todo = IF g.hasd THEN {} ELSE Dom(g.readm), !.pc = "mkdirty"])
                   ELSE Quiet(p, g, At(c, IF b.m = "CIA" THEN "call" ELSE "insert"))

Unexp(p) ==
  LET b == s[p] IN
  /\ b.pc = "unexp"
  /\ Quiet(p, IF g.P[b.e] = Gone THEN [g EXCEPT !.P[b.e] = None, !.dirty[b.k] = IF Bug = 3 THEN @ ELSE b.e] ELSE g,
           At(b, IF b.m = "Store" THEN "store" ELSE "entry"))
StoreL(p) == s[p].pc = "store" /\ End(p, [g EXCEPT !.P[s[p].e] = s[p].id], None, FALSE)

\* dirtyLocked: one entry at a time, expunging the deleted ones
MkDirty(p) ==
  LET b == s[p] IN
  /\ b.pc = "mkdirty"
  /\ IF b.todo = {} THEN Quiet(p, [g EXCEPT !.amended = TRUE, !.hasd = TRUE], At(b, IF b.m = "CIA" THEN "call" ELSE "insert"))
     ELSE LET y == CHOOSE y \in b.todo : TRUE x == g.P[g.readm[y]] c == [b EXCEPT !.todo = @ \ {y}] IN
          CASE x = None -> Quiet(p, g, [b EXCEPT !.y = y, !.pc = "expunge"])
            [] x = Gone -> Quiet(p, g, c)
            [] OTHER -> Quiet(p, [g EXCEPT !.dirty[y] = g.readm[y]], c)
Expunge(p) ==
  LET b == s[p] e == g.readm[b.y] IN
  /\ b.pc = "expunge"
  /\ IF g.P[e] = None \/ Bug = 4 THEN Quiet(p, [g EXCEPT !.P[e] = Gone], [b EXCEPT !.todo = @ \ {b.y}, !.pc = "mkdirty"])
     ELSE Quiet(p, g, At(b, "mkdirty"))

Insert(p) ==
  LET b == s[p] IN
  /\ b.pc = "insert"
  /\ End(p, [g EXCEPT !.P[g.nexte] = b.nv, !.dirty[b.k] = g.nexte, !.nexte = @ + 1],
         IF b.m = "Store" THEN None ELSE b.nv, FALSE)

\* LoadOrStore and the computations on an entry of the dirty map count as misses
Unlock(p) ==
  LET b == s[p] a0 == [g EXCEPT !.mu = 0]
      a == IF b.slow /\ b.m \in {"LoadOrStore", "CIA", "CIP"} /\ b.e # 0 /\ g.readm[b.k] = 0 THEN Missed(a0) ELSE a0 IN
  /\ b.pc = "unlock"
  /\ CASE b.m \in {"Load", "LoadAndDelete"} -> IF b.e = 0 THEN Done(p, a, None, FALSE) ELSE Quiet(p, a, At(b, "entry"))
       [] b.m = "Range" -> Quiet(p, a, At(b, "range"))
       [] OTHER -> Done(p, a, b.rv, b.rok)

Range(p) ==
  LET b == s[p] IN
  /\ b.pc = "range"
  /\ IF b.todo = {} THEN Done(p, g, None, FALSE)
     ELSE \E y \in b.todo :
          /\ g' = g /\ UNCHANGED <<cbs, cbok>>
          /\ s' = [s EXCEPT ![p].todo = @ \ {y}]
          /\ cf' = IF g.P[b.rm[y]] \in {None, Gone} THEN cf
                   ELSE Closed(UNION {Visits(c, b.id, y, g.P[b.rm[y]], TRUE) : c \in cf})

Step(p) == \/ Start(p) \/ Fast(p) \/ Entry(p) \/ CallF(p) \/ Cas(p) \/ Again(p) \/ Lock(p) \/ Crit(p) \/ Unexp(p)
           \/ StoreL(p) \/ MkDirty(p) \/ Expunge(p) \/ Insert(p) \/ Unlock(p) \/ Range(p)
Over == \A p \in Procs : s[p].pc = "idle" /\ s[p].n = NOps
Next == (\E p \in Procs : Step(p)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Explained == cf # {}
FromCallback == cbok
\* at rest the map holds what one of the explanations holds
Held(y) == LET e == IF g.readm[y] # 0 \/ ~g.amended THEN g.readm[y] ELSE g.dirty[y] IN
           IF e = 0 THEN None ELSE IF g.P[e] = Gone THEN None ELSE g.P[e]
AtRest == (\A p \in Procs : s[p].pc = "idle") => \E c \in cf : c.kv = [y \in Keys |-> Held(y)]
\* what the comments in the code promise about the representation
Shaped == g.mu = 0 =>
  /\ ~g.hasd => g.dirty = NilMap
  /\ g.amended <=> g.hasd
  /\ \A y \in Keys : g.readm[y] # 0 /\ g.P[g.readm[y]] = Gone => g.hasd /\ g.dirty[y] # g.readm[y]
  /\ \A y \in Keys : g.readm[y] # 0 /\ g.P[g.readm[y]] \notin {None, Gone} /\ g.hasd => g.dirty[y] = g.readm[y]
=============================================================================
