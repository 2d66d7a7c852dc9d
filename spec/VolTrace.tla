------------------------------ MODULE VolTrace ------------------------------
(***************************************************************************)
(* Large volumes: many alike operations by several goroutines at a time.   *)
(* Maps and resource managers are modelled by classes of keys: phase by    *)
(* phase the same is done with all keys of some classes, by different      *)
(* goroutines at the same time, and what happened is recorded per class.   *)
(* Lists of numbers are given as arithmetic progressions (first element a, *)
(* step d, length n; n = -1: not one).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st,   \* class -> tag of what its keys hold, 0: nothing
          t, l
vars == <<st, t, l>>
Ev == H[t].h[l]
Kind == H[t].kind
Cl == IF Kind \in {"map", "res"} THEN 0..H[t].ncl-1 ELSE {0}
Init == t \in 1..Len(H) /\ l = 1 /\ st = [c \in Cl |-> 0]

Min(a, b) == IF a < b THEN a ELSE b
AP(a, d, n) == IF n <= 0 THEN [a |-> 0, d |-> 0, n |-> 0]
               ELSE IF n = 1 THEN [a |-> a, d |-> 0, n |-> 1] ELSE [a |-> a, d |-> d, n |-> n]
\* how many of 0..n-1 have the remainder c modulo m
Many(n, m, c) == IF c >= n THEN 0 ELSE (n - c + m - 1) \div m
Size(c) == Many(H[t].nk, H[t].ncl, c)
Sel(c) == c % Ev.md = Ev.rs
\* a field of the event for class c
Of(f, c) == f[c + 1]
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Size(c) + Total(S \ {c})
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN f[c + 1] + SumOf(f, S \ {c})

-----------------------------------------------------------------------------
\* maps
Here(c) == st[c] # 0 /\ Size(c) > 0
Set(v(_)) == st' = [c \in Cl |-> IF Sel(c) THEN v(c) ELSE st[c]]
\* what is seen of each class, where anything is seen
Res(v(_)) == \A c \in Cl : Of(Ev.res, c) = IF Sel(c) /\ Size(c) > 0 THEN v(c) ELSE 0
Cnt(v(_)) == \A c \in Cl : Of(Ev.cnt, c) = IF Sel(c) THEN v(c) ELSE 0
\* callbacks: a promotion of the map in between may ask for a second one
Cbs(p(_)) == \A c \in Cl : IF Sel(c) /\ p(c) THEN Of(Ev.cbs, c) >= Size(c) ELSE Of(Ev.cbs, c) = 0
Absent(c) == st[c] = 0
Present(c) == st[c] # 0
New(c) == Ev.tag
Old(c) == st[c]
Either(c) == IF st[c] = 0 THEN Ev.tag ELSE st[c]
Renew(c) == IF st[c] = 0 THEN 0 ELSE Ev.tag
None(c) == 0
If(p(_), c) == IF p(c) THEN Size(c) ELSE 0

MapPhase ==
  /\ Ev.bad = 0
  /\ CASE Ev.op = "load" -> Res(Old) /\ UNCHANGED st
       [] Ev.op \in {"store", "many"} -> Set(New)
       [] Ev.op = "del" -> Set(None)
       [] Ev.op = "lad" -> Res(Old) /\ Set(None)
       [] Ev.op = "los" -> Res(Either) /\ Cnt(LAMBDA c : If(Present, c)) /\ Set(Either)
       [] Ev.op = "cia" -> Res(Either) /\ Cnt(LAMBDA c : If(Present, c)) /\ Cbs(Absent) /\ Set(Either)
       [] Ev.op = "cip" -> Res(Renew) /\ Cnt(LAMBDA c : If(Present, c)) /\ Cbs(Present) /\ Set(Renew)
       \* of gs goroutines one stores, one deletes, and each updates
       [] Ev.op = "losrace" -> Res(Either) /\ Cnt(LAMBDA c : If(Absent, c)) /\ Set(Either)
       [] Ev.op = "ciarace" -> Res(Either) /\ Cnt(LAMBDA c : If(Absent, c)) /\ Cbs(Absent) /\ Set(Either)
       [] Ev.op = "ladrace" -> Cnt(LAMBDA c : If(Present, c)) /\ Set(None)
       [] Ev.op = "ciprace" -> Res(Renew) /\ Cnt(LAMBDA c : Ev.n * If(Present, c)) /\ Cbs(Present) /\ Set(Renew)
       [] Ev.op = "clear" -> st' = [c \in Cl |-> 0]
       [] Ev.op = "range" -> /\ \A c \in Cl : /\ Of(Ev.res, c) = IF Size(c) > 0 THEN st[c] ELSE 0
                                              /\ Of(Ev.cnt, c) = If(Present, c)
                             /\ UNCHANGED st
       [] Ev.op = "rangestop" -> /\ \A c \in Cl : /\ Of(Ev.res, c) \in {0, st[c]}
                                                  /\ Of(Ev.cnt, c) <= If(Present, c)
                                 /\ SumOf(Ev.cnt, Cl) = Min(Ev.n, Total({c \in Cl : st[c] # 0}))
                                 /\ UNCHANGED st
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* resources: 1 is held, 0 is not
ResPhase ==
  /\ Ev.bad = 0
  /\ CASE Ev.op = "get" ->
            /\ \A c \in Cl :
                 IF ~Sel(c) THEN Of(Ev.created, c) = 0 /\ Of(Ev.errs, c) = 0
                 ELSE IF st[c] = 1 THEN Of(Ev.created, c) = 0 /\ Of(Ev.errs, c) = 0
                 ELSE IF c = Ev.fail THEN /\ Of(Ev.errs, c) = H[t].gs * Size(c)
                                          /\ Of(Ev.created, c) \in Size(c)..H[t].gs * Size(c)
                 ELSE Of(Ev.created, c) = Size(c) /\ Of(Ev.errs, c) = 0
            /\ st' = [c \in Cl |-> IF Sel(c) /\ c # Ev.fail THEN 1 ELSE st[c]]
       [] Ev.op \in {"remove", "removerace"} ->
            /\ \A c \in Cl : Of(Ev.removed, c) = IF Sel(c) /\ st[c] = 1 THEN Size(c) ELSE 0
            /\ st' = [c \in Cl |-> IF Sel(c) THEN 0 ELSE st[c]]
       [] Ev.op = "close" ->
            /\ \A c \in Cl : /\ Of(Ev.closes, c) = IF st[c] = 1 THEN Size(c) ELSE 0
                             /\ Of(Ev.lines, c) = IF st[c] = 1 /\ c = H[t].cfail THEN Size(c) ELSE 0
            /\ st' = [c \in Cl |-> 0]
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
Range_(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range_(s)) = Len(s)
N == H[t].n
Answer ==
  CASE Kind = "pool" -> Ev.got = N /\ Ev.bad = 0 /\ Ev.short = 0
    [] Kind = "retry" -> LET calls == Min(N, H[t].succeed) + 1
                             good == H[t].succeed <= N
                         IN Ev.calls = calls /\ Ev.nil = good /\ Ev.lines = IF good THEN AP(0, 0, 0) ELSE AP(0, 1, calls)
    [] Kind = "batch" -> /\ Ev.notnil /\ ~Ev.nil
                         /\ Ev.lines = AP(0, H[t].step, Many(N, H[t].step, 0))
    [] Kind = "do" -> Ev.left = 0 /\ Ev.aps = <<AP(0, 1, N), AP(0, 1, N), AP(0, 3, Many(N, 3, 0)), AP(1, 3, Many(N, 3, 1)), AP(2, 3, Many(N, 3, 2))>>
    [] Kind = "worker" -> Ev.ran = AP(0, 1, N) /\ Ev.settled = AP(0, 1, N) /\ Ev.peak <= H[t].n0
    [] Kind = "barrier" -> Ev.ok = AP(0, 1, N) /\ Ev.vals = AP(0, 1, N)
    [] Kind = "mr" -> /\ Ev.mapped = AP(0, 1, N) /\ Ev.ended = N /\ Ev.gend = 1 /\ Ev.peak <= H[t].n0
                      /\ Ev.okw = AP(0, 1, N * H[t].writes) /\ Ev.out = Ev.okw
    \* cancelled: everything at most once, all that was written successfully
    [] Kind = "mrc" -> /\ Distinct(Ev.mapped) /\ Range_(Ev.mapped) \subseteq 0..N-1
                       /\ Distinct(Ev.out) /\ Range_(Ev.out) = Range_(Ev.okw)
                       /\ \A v \in Range_(Ev.out) : v \div H[t].writes \in Range_(Ev.mapped)
                       /\ Ev.late = 0
    [] OTHER -> FALSE

Consume == CASE Ev.e = "ph" /\ Kind = "map" -> MapPhase
             [] Ev.e = "ph" /\ Kind = "res" -> ResPhase
             [] Ev.e = "ret" /\ Kind \notin {"map", "res"} -> Answer /\ UNCHANGED st
             [] Ev.e = "end" -> Ev.st = "done" /\ UNCHANGED st
             [] OTHER -> FALSE

Next == /\ l <= Len(H[t].h)
        /\ Consume /\ l' = l + 1 /\ t' = t
        /\ (l' = Len(H[t].h) + 1 => PrintT(<<"ACC", t>>))
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, l>>) ELSE TRUE
=============================================================================
