----------------------------- MODULE StreamSpec ----------------------------
(***************************************************************************)
(* Streams as functions on finite lists (C16, C19).                        *)
(* An element is [k, v, m]: k = "i" the integer v, "n" nil, "l" a list     *)
(* with members m, "s" a stream of the elements m.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Int_(n) == [k |-> "i", v |-> n, m |-> <<>>]
Nil == [k |-> "n", v |-> 0, m |-> <<>>]
List(s) == [k |-> "l", v |-> 0, m |-> s]
Strm(s) == [k |-> "s", v |-> 0, m |-> s]
NilKey == -999

\* key functions (the same table is implemented in the driver)
Key(f, x) ==
  IF x.k \notin {"i", "l"} THEN IF f = "const" THEN 0 ELSE NilKey
  ELSE LET n == IF x.k = "i" THEN x.v ELSE Len(x.m)
       IN CASE f = "mod2" -> n % 2
            [] f = "mod3" -> n % 3
            [] f = "const" -> 0
            [] f = "nilodd" /\ x.k = "i" -> IF n % 2 = 0 THEN n ELSE NilKey
            [] OTHER -> n

MapF(f, x) ==
  CASE x.k = "i" -> IF f = "nilodd" /\ x.v % 2 = 1 THEN Nil ELSE Int_(x.v + 10)
    [] x.k = "l" -> Int_(Len(x.m))
    [] x.k = "s" -> List(x.m)
    [] OTHER -> IF f = "nilodd" THEN Int_(5) ELSE Nil

Holds(f, n, x) == Key(f, x) >= n
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, Min(n, Len(s)) + 1, Len(s))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

\* first element of each key
Distinct(s, f) ==
  LET Fresh(i) == \A j \in 1..i-1 : Key(f, s[j]) # Key(f, s[i])
      RECURSIVE From(_)
      From(i) == IF i > Len(s) THEN <<>> ELSE (IF Fresh(i) THEN <<s[i]>> ELSE <<>>) \o From(i + 1)
  IN From(1)

\* chunks of n, the last one shorter
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF s = <<>> THEN <<>> ELSE <<Take(s, n)>> \o Chunks(Drop(s, n), n)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* all orderings of s by the key f, ties in any order
RECURSIVE Sorts(_, _)
Sorts(s, f) ==
  IF s = <<>> THEN {<<>>}
  ELSE LET m == CHOOSE k \in {Key(f, s[i]) : i \in DOMAIN s} : \A i \in DOMAIN s : k <= Key(f, s[i])
           first == {i \in DOMAIN s : Key(f, s[i]) = m /\ \A j \in 1..i-1 : s[j] # s[i]}
       IN UNION {{<<s[i]>> \o r : r \in Sorts(Without(s, i), f)} : i \in first}

Keys(s, f) == {Key(f, s[i]) : i \in DOMAIN s}
OfKey(s, f, k) == SelectSeq(s, LAMBDA x : Key(f, x) = k)

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o r : r \in Perms(S \ {x})} : x \in S}

\* may this stage be built at all
Valid(g) == CASE g.op \in {"split", "splits"} -> g.n >= 1
              [] g.op \in {"tail", "skip", "limit"} -> g.n >= 0
              [] OTHER -> TRUE

\* the possible lists after stage g on the list s
Out(g, s) ==
  CASE g.op = "distinct" -> {Distinct(s, g.f)}
    [] g.op \in {"buffer", "peek", "range", "from"} -> {s}
    [] g.op = "split" -> {Map(Chunks(s, g.n), List)}
    [] g.op = "splits" -> {Map(Chunks(s, g.n), Strm)}
    [] g.op = "sort" -> Sorts(s, g.f)
    [] g.op = "reverse" -> {Rev(s)}
    [] g.op = "tail" -> {Drop(s, Max(0, Len(s) - g.n))}
    [] g.op = "skip" -> {Drop(s, g.n)}
    [] g.op = "limit" -> {Take(s, g.n)}
    [] g.op = "merge" -> {<<List(s)>>}
    [] g.op = "group" -> {Map(p, LAMBDA k : List(OfKey(s, g.f, k))) : p \in Perms(Keys(s, g.f))}
    [] g.op = "map" -> {Map(s, LAMBDA x : MapF(g.f, x))}
    [] g.op = "filter" -> {SelectSeq(s, LAMBDA x : Holds(g.f, g.n, x))}

\* does this stage read its input to the end before its own stream ends
Exhausts(g) == g.op # "limit" /\ ~(g.op = "tail" /\ g.n = 0)

\* where a search with predicate p stops: the first index it holds at, or 0
FirstIdx(s, P(_)) == IF \E i \in DOMAIN s : P(s[i]) THEN CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..i-1 : ~P(s[j]) ELSE 0

\* the answer r of terminal operation g on s; calls: what its function was called with
Answer(g, s, r, calls) ==
  CASE g.op \in {"list", "collect"} -> r.xs = s /\ calls = <<>>
    [] g.op = "count" -> r.n = Len(s)
    [] g.op = "foreach" -> calls = s
    [] g.op = "ordered" -> calls = Rev(s)
    [] g.op = "any" -> LET i == FirstIdx(s, LAMBDA x : Holds(g.f, g.n, x))
                       IN r.b = (i # 0) /\ calls = IF i = 0 THEN s ELSE Take(s, i)
    [] g.op = "all" -> LET i == FirstIdx(s, LAMBDA x : ~Holds(g.f, g.n, x))
                       IN r.b = (i = 0) /\ calls = IF i = 0 THEN s ELSE Take(s, i)
    [] g.op = "first" -> IF s = <<>> THEN r.err = "none" /\ r.x = Nil ELSE r.err = "" /\ r.x = s[1]
    [] g.op = "last" -> IF s = <<>> THEN r.err = "none" /\ r.x = Nil ELSE r.err = "" /\ r.x = s[Len(s)]
    \* two readings agree (r.b), keys in ascending order
    [] g.op = "groupby" -> /\ r.b
                           /\ {r.g[i].k : i \in DOMAIN r.g} = Keys(s, g.f)
                           /\ Len(r.g) = Cardinality(Keys(s, g.f))
                           /\ \A i \in DOMAIN r.g : r.g[i].xs = OfKey(s, g.f, r.g[i].k)
    [] OTHER -> TRUE
=============================================================================
