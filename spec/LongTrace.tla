----------------------------- MODULE LongTrace -----------------------------
(***************************************************************************)
(* Very long streams (C16-C20).  A list is given as the arithmetic         *)
(* progression it is: first element a, step d, length n; every stage used  *)
(* here maps progressions to progressions.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES list,   \* the lists after each stage, the source first
          t, l
vars == <<list, t, l>>

\* one form for each list
AP(a, d, n) == IF n <= 0 THEN [a |-> 0, d |-> 0, n |-> 0]
               ELSE IF n = 1 THEN [a |-> a, d |-> 0, n |-> 1] ELSE [a |-> a, d |-> d, n |-> n]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Ith(s, i) == s.a + (i - 1) * s.d
LastOf(s) == Ith(s, s.n)
Take(s, k) == AP(s.a, s.d, Min(k, s.n))
Drop(s, k) == AP(IF k < s.n THEN Ith(s, k + 1) ELSE 0, s.d, s.n - Min(k, s.n))
Rev(s) == AP(IF s.n = 0 THEN 0 ELSE LastOf(s), -s.d, s.n)
\* the first index of an element with remainder r modulo m, 0: none
First(s, m, r) == LET k == {i \in 1..Min(s.n, m) : Ith(s, i) % m = r}
                  IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
\* after how many elements remainders come back
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Period(s, m) == m \div Gcd(m, Abs(s.d) % m)
Class(s, m, r) == LET i == First(s, m, r)
                      p == Period(s, m)
                  IN IF i = 0 THEN AP(0, 0, 0) ELSE AP(Ith(s, i), s.d * p, ((s.n - i) \div p) + 1)

Out(g, s) ==
  CASE g.op \in {"buffer", "peek", "map", "filter", "walk", "flatmap"} -> s
    [] g.op = "tail" -> Drop(s, Max(0, s.n - g.n))
    [] g.op = "skip" -> Drop(s, g.n)
    [] g.op = "limit" -> Take(s, g.n)
    [] g.op = "reverse" -> Rev(s)
    [] g.op = "sort" -> IF s.d < 0 THEN Rev(s) ELSE s
    [] g.op = "keep" -> Class(s, g.n, 0)
    [] g.op = "none" -> AP(0, 0, 0)
    \* the first element of each remainder
    [] g.op = "distinct" -> IF s.n <= 1 THEN s ELSE Take(s, Period(s, g.n))

\* a parallel stage may change the order: the list is then seen in ascending order
Wild == \E i \in DOMAIN H[t].stages : H[t].stages[i].op \in {"map", "filter", "walk", "flatmap"} /\ H[t].stages[i].n > 1
Seen(s) == IF Wild /\ s.d < 0 THEN Rev(s) ELSE s
G == H[t].stages
T == H[t].term
R == H[t].h[1]
L == list[Len(list)]
Init == t \in 1..Len(H) /\ l = 1 /\ list = <<AP(H[t].first, 1, H[t].count)>>

Stage == /\ Len(list) <= Len(G)
         /\ list' = Append(list, Out(G[Len(list)], L))
         /\ UNCHANGED <<t, l>>

Classes(s, m) == {Class(s, m, r) : r \in 0..m-1} \ {AP(0, 0, 0)}
Chunks(s, k) == [i \in 1..((s.n + k - 1) \div k) |-> AP(Ith(s, (i - 1) * k + 1), s.d, Min(k, s.n - (i - 1) * k))]
\* where a search for the elements >= v stops: all of them, or after the first one
Stop(s, v) == LET k == IF s.n = 0 THEN 0
                       ELSE IF s.a >= v THEN 1
                       ELSE IF s.d <= 0 \/ LastOf(s) < v THEN 0
                       ELSE ((v - s.a) + s.d - 1) \div s.d + 1
              IN k
Big(k) == k >= 1000000000

Answer ==
  CASE T.op = "list" -> R.aps = <<Seen(L)>>
    [] T.op \in {"split", "splits"} -> R.aps = (IF L.n = 0 THEN <<>> ELSE IF T.n >= L.n THEN <<L>> ELSE Chunks(L, T.n))
    [] T.op = "merge" -> R.aps = <<L>>
    [] T.op \in {"group", "groupby"} -> /\ {R.aps[i] : i \in DOMAIN R.aps} = Classes(L, T.n)
                                       /\ Len(R.aps) = Cardinality(Classes(L, T.n))
    [] T.op = "count" -> R.n = L.n
    [] T.op = "foreach" -> R.calls = L
    [] T.op = "ordered" -> R.calls = Rev(L)
    [] T.op = "any" -> LET k == Stop(L, T.n) IN R.b = (k # 0) /\ R.calls = IF k = 0 THEN L ELSE Take(L, k)
    [] T.op = "all" -> LET k == Stop(L, T.n) IN R.b = (k = 0) /\ R.calls = IF k = 0 THEN L ELSE Take(L, k)
    [] T.op = "first" -> IF L.n = 0 THEN R.err = "none" ELSE R.err = "" /\ R.x = L.a
    [] T.op = "last" -> IF L.n = 0 THEN R.err = "none" ELSE R.err = "" /\ R.x = LastOf(L)
    [] T.op = "parallel" -> R.calls = IF (T.n > 1 \/ Wild) /\ L.d < 0 THEN Rev(L) ELSE L
    [] T.op \in {"copy", "copyseq"} -> R.aps = <<L, L, L>>
    [] T.op = "concat" -> R.aps = <<L, AP(-1, -1, H[t].count)>>
    [] OTHER -> TRUE

\* a peek before stages and an end that read everything has seen everything
Reads(g) == ~(g.op = "limit" \/ (g.op = "tail" /\ g.n = 0))
IsPrefix_(p, s) == p.n >= 0 /\ p.n <= s.n /\ p = Take(s, p.n)
Peeks == \A i \in DOMAIN R.pk : LET k == R.pk[i].k
                                    p == [a |-> R.pk[i].a, d |-> R.pk[i].d, n |-> R.pk[i].n]
                                IN /\ IsPrefix_(p, list[k])
                                   /\ (T.op \notin {"any", "all", "first"} /\ \A j \in k+1..Len(G) : Reads(G[j])) => p = list[k]

Finish == /\ Len(list) = Len(G) + 1 /\ l = 1
          /\ Len(H[t].h) = 2 /\ R.e = "ret" /\ H[t].h[2].e = "end" /\ H[t].h[2].st = "done"
          /\ Answer /\ Peeks
          /\ l' = 2 /\ PrintT(<<"ACC", t>>) /\ UNCHANGED <<list, t>>
Next == (l = 1 /\ Stage) \/ Finish
Spec == Init /\ [][Next]_vars
Reach == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", t, 1>>) ELSE TRUE
=============================================================================
