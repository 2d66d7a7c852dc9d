------------------------------ MODULE StrSpec ------------------------------
(***************************************************************************)
(* The functions of xstring on sequences of characters (C24-C27) and of    *)
(* xmath on exact numbers (C28).  Ok(c) says whether the recorded result   *)
(* of call c is right.  Cls: character class table of the characters used. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
SX == INSTANCE SequencesExt
CONSTANT Cls(_)        \* character -> [letter, digit, space, fold, bytes]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, Min(n, Len(s)) + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(c, n) == [i \in 1..Max(n, 0) |-> c]
Has(s, c) == \E i \in DOMAIN s : s[i] = c
Count(s, c) == Cardinality({i \in DOMAIN s : s[i] = c})

-----------------------------------------------------------------------------
\* C24

\* positions: negative from the end, clamped
At(s, n) == LET k == IF n < 0 THEN n + Len(s) ELSE n IN Max(0, Min(k, Len(s)))
Sub(s, a, b) == SubSeq(s, At(s, a) + 1, At(s, b))
PadLeft(s, n, c) == Rep(c, n - Len(s)) \o s
PadRight(s, n, c) == s \o Rep(c, n - Len(s))
PadCenter(s, n, c) == LET p == Max(0, n - Len(s)) IN Rep(c, p \div 2) \o s \o Rep(c, p - p \div 2)

\* a 64-bit number <<sign, h, m, l>> modulo the length k, between 0 and k-1
Mod(n, k) == LET Byte(x) == (x * 256) % k      \* in steps that stay below 2^31
                 Shift(x) == Byte(Byte(Byte(x)))
                 m == (Shift((Shift(n[2] % k) + n[3]) % k) + n[4]) % k
             IN IF n[1] > 0 THEN m ELSE (k - m) % k
\* one step moves the last character to the front
Rotate(s, n) == IF s = <<>> THEN s ELSE LET m == Mod(n, Len(s)) IN Drop(s, Len(s) - m) \o Take(s, Len(s) - m)

\* the occurrences of x in s from the left, not overlapping: the gaps between them remain
RemoveStr(s, x) ==
  LET m == Len(x)
      At_(i) == i + m - 1 <= Len(s) /\ s[i] = x[1] /\ SubSeq(s, i, i + m - 1) = x
      \* acc: the next character not removed yet, what remains
      Step(acc, i) == IF i < acc[1] THEN acc
                      ELSE IF At_(i) THEN <<i + m, acc[2]>>
                      ELSE <<i + 1, Append(acc[2], s[i])>>
  IN CASE m = 0 \/ m > Len(s) -> s
       [] m = 1 -> SelectSeq(s, LAMBDA y : y # x[1])
       [] OTHER -> SX!FoldLeft(Step, <<1, <<>>>>, [i \in 1..Len(s) |-> i])[2]

Chars(s) == {s[i] : i \in DOMAIN s}
IsPerm(a, b) == Len(a) = Len(b) /\ \A c \in Chars(a) : Count(a, c) = Count(b, c)

-----------------------------------------------------------------------------
\* C25
Eq(a, b, ic) == a = b \/ (ic /\ Cls(a).fold = Cls(b).fold)
SeqEq(s, x, ic) == Len(s) = Len(x) /\ \A i \in DOMAIN s : Eq(s[i], x[i], ic)
Region(s, i, x, j, n, ic) == /\ i >= 0 /\ j >= 0 /\ n >= 0
                             /\ i <= Len(s) /\ j <= Len(x) /\ n <= Len(s) - i /\ n <= Len(x) - j
                             /\ SeqEq(SubSeq(s, i + 1, i + n), SubSeq(x, j + 1, j + n), ic)
Ends(s, x, ic) == Len(x) <= Len(s) /\ SeqEq(Drop(s, Len(s) - Len(x)), x, ic)
Places(s, x, ic) == {i \in 0..(Len(s) - Len(x)) : SeqEq(SubSeq(s, i + 1, i + Len(x)), x, ic)}
Contains(s, x, ic) == Places(s, x, ic) # {}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Bytes(s) == LET Of(k) == Cardinality({i \in DOMAIN s : Cls(s[i]).bytes = k})
            IN Of(1) + 2 * Of(2) + 3 * Of(3) + 4 * Of(4)
\* offsets are in bytes
ByteAt(s, S) == IF S = {} THEN -1 ELSE Bytes(Take(s, Least(S)))
\* the length of the longest common prefix of a non-empty sequence of strings
Common(ss) == LET m == Least({Len(ss[i]) : i \in DOMAIN ss})
                  d == {i \in 1..m : \E k \in DOMAIN ss : ss[k][i] # ss[1][i]}
              IN IF d = {} THEN m ELSE Least(d) - 1
Same(ss) == \A k \in DOMAIN ss : ss[k] = ss[1]
DiffAt(ss) == IF Len(ss) < 2 \/ Same(ss) THEN -1 ELSE Common(ss)

-----------------------------------------------------------------------------
\* C26: <<fails, result>>
Abbr(s, m, offset, w) ==
  LET off == Max(0, Min(offset, Len(s)))
      o == IF Len(s) - off < w - Len(m) THEN Len(s) - (w - Len(m)) ELSE off
  IN CASE s = <<>> -> <<FALSE, s>>
       [] s # <<>> /\ m = <<>> -> <<FALSE, Take(s, w)>>
       [] OTHER ->
            IF w < Len(m) + 1 THEN <<TRUE, <<>>>>
            ELSE IF Len(s) <= w THEN <<FALSE, s>>
            ELSE IF o <= Len(m) + 1 THEN <<FALSE, Take(s, w - Len(m)) \o m>>
            ELSE IF w < 2 * Len(m) + 1 THEN <<TRUE, <<>>>>
            ELSE IF o + w - Len(m) < Len(s) THEN <<FALSE, m \o SubSeq(s, o + 1, o + w - 2 * Len(m)) \o m>>
            ELSE <<FALSE, m \o Drop(s, Len(s) - (w - Len(m)))>>

-----------------------------------------------------------------------------
\* C27
All(s, P(_)) == \A i \in DOMAIN s : P(s[i])
Letter(c) == Cls(c).letter = 1
Digit(c) == Cls(c).digit = 1
Space(c) == Cls(c).space = 1
Dot == 46
Num(c) == c \in 48..57
Numerical(s) == /\ s # <<>> /\ Num(s[1])
                /\ \A i \in DOMAIN s : Num(s[i]) \/ s[i] = Dot
                /\ Count(s, Dot) <= 1
Blank(s) == All(s, Space)
\* without the leading / trailing characters for which P holds
Lstrip(s, P(_)) == LET k == {i \in DOMAIN s : ~P(s[i])} IN IF k = {} THEN <<>> ELSE Drop(s, Least(k) - 1)
Rstrip(s, P(_)) == Rev(Lstrip(Rev(s), P))
Some(ss, P(_)) == ss = <<>> \/ \E i \in DOMAIN ss : P(ss[i])
Empty(s) == s = <<>>

-----------------------------------------------------------------------------
Str(c, s) == c.r = s /\ ~c.err
Rest(c) == Tail(c.ss)

Ok(c) ==
  LET s == c.ss[1]
      x == c.ss[2]
      n == c.n[1]
      T == Tail(c.ss)
  IN
  /\ c.pan = ""
  /\ CASE c.f = "Sub" -> Str(c, Sub(s, n, c.n[2]))
       [] c.f = "Left" -> Str(c, Sub(s, 0, n))
       [] c.f = "Right" -> Str(c, Drop(s, At(s, n)))
       [] c.f = "PadLeftChar" -> Str(c, PadLeft(s, n, c.c))
       [] c.f = "PadRightChar" -> Str(c, PadRight(s, n, c.c))
       [] c.f = "PadCenterChar" -> Str(c, PadCenter(s, n, c.c))
       [] c.f = "PadLeftSpace" -> Str(c, PadLeft(s, n, 32))
       [] c.f = "PadRightSpace" -> Str(c, PadRight(s, n, 32))
       [] c.f = "PadCenterSpace" -> Str(c, PadCenter(s, n, 32))
       [] c.f = "Rotate" -> Str(c, Rotate(s, c.l))
       [] c.f \in {"Reverse", "MustReverse"} -> Str(c, Rev(s))
       [] c.f = "RepeatChar" -> Str(c, Rep(c.c, n))
       [] c.f = "RemoveChar" -> Str(c, SelectSeq(s, LAMBDA y : y # c.c))
       [] c.f = "RemoveString" -> Str(c, RemoveStr(s, x))
       [] c.f = "Len" -> c.i = Len(s)
       [] c.f = "Shuffle" -> IsPerm(s, c.r)
       [] c.f = "EqualsIgnoreCase" -> c.b = SeqEq(s, x, TRUE)
       [] c.f = "EndsWith" -> c.b = Ends(s, x, c.ic)
       [] c.f = "EndsWithIgnoreCase" -> c.b = Ends(s, x, TRUE)
       [] c.f = "EndsWithCase" -> c.b = Ends(s, x, FALSE)
       [] c.f = "EndsWithAny" -> c.b = (s # <<>> /\ \E i \in DOMAIN T : Ends(s, T[i], FALSE))
       [] c.f = "RegionMatches" -> c.b = Region(s, n, x, c.n[2], c.n[3], c.ic)
       [] c.f = "Contains" -> c.b = (s # <<>> /\ Contains(s, x, FALSE))
       [] c.f = "ContainsIgnoreCase" -> c.b = Contains(s, x, TRUE)
       [] c.f = "ContainsAnySubstrings" -> c.b = (\E i \in DOMAIN T : Contains(s, T[i], FALSE))
       [] c.f = "Index" -> c.i = ByteAt(s, Places(s, x, FALSE))
       [] c.f = "IndexAny" -> c.i = ByteAt(s, {i - 1 : i \in {j \in DOMAIN s : Has(x, s[j])}})
       [] c.f = "EqualsAny" -> c.b = (\E i \in DOMAIN T : T[i] = s)
       [] c.f \in {"IndexOfDifference", "IndexOfDifference2"} -> c.i = DiffAt(c.ss)
       [] c.f = "Difference" -> Str(c, IF s = x THEN <<>> ELSE Drop(x, Common(<<s, x>>)))
       [] c.f = "CommonPrefix" -> Str(c, IF c.ss = <<>> THEN <<>> ELSE Take(s, Common(c.ss)))
       [] c.f = "Abbreviate" -> LET a == Abbr(s, x, n, c.n[2])
                                IN IF a[1] THEN c.err ELSE ~c.err /\ c.r = a[2] /\ (x # <<>> => Len(c.r) <= Max(c.n[2], 0) \/ s = <<>>)
       [] c.f = "IsAlpha" -> c.b = (s # <<>> /\ All(s, Letter))
       [] c.f = "IsNumeric" -> c.b = (s # <<>> /\ All(s, Digit))
       [] c.f = "IsAlphanumeric" -> c.b = (s # <<>> /\ All(s, LAMBDA y : Letter(y) \/ Digit(y)))
       [] c.f = "IsNumerical" -> c.b = Numerical(s)
       [] c.f = "IsEmpty" -> c.b = Empty(s)
       [] c.f = "IsNotEmpty" -> c.b = ~Empty(s)
       [] c.f = "IsAnyEmpty" -> c.b = Some(c.ss, Empty)
       [] c.f = "IsNoneEmpty" -> c.b = ~Some(c.ss, Empty)
       [] c.f = "IsBlank" -> c.b = Blank(s)
       [] c.f = "IsNotBlank" -> c.b = ~Blank(s)
       [] c.f = "IsAnyBlank" -> c.b = Some(c.ss, Blank)
       [] c.f = "IsNoneBlank" -> c.b = ~Some(c.ss, Blank)
       [] c.f = "TrimSpace" -> Str(c, Rstrip(Lstrip(s, Space), Space))
       [] c.f = "Trim" -> Str(c, Rstrip(Lstrip(s, LAMBDA y : Has(x, y)), LAMBDA y : Has(x, y)))
       [] c.f = "TrimLeft" -> Str(c, Lstrip(s, LAMBDA y : Has(x, y)))
       [] c.f = "TrimRight" -> Str(c, Rstrip(s, LAMBDA y : Has(x, y)))
       [] c.f = "DefaultIfBlank" -> Str(c, IF Blank(s) THEN x ELSE s)
       [] c.f = "DefaultIfEmpty" -> Str(c, IF Empty(s) THEN x ELSE s)
       [] c.f = "DeleteWhitespace" -> Str(c, SelectSeq(s, LAMBDA y : ~Space(y)))
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* C28: numbers are [k: "num"/"nan", neg, m: magnitude in base 2^21]; -0 is below +0
Below(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
Lt(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN Below(y.m, x.m) ELSE Below(x.m, y.m)
Nan(x) == x.k = "nan"
\* the infinities have the exponent 2047 and no fraction
Inf(x, neg) == ~Nan(x) /\ x.neg = neg /\ x.m = <<2096128, 0, 0>>
NumOk(c) ==
  LET dom == c.f = "Min"      \* sign of the infinity that dominates
      pick == IF c.f = "Max" THEN IF Lt(c.x, c.y) THEN c.y ELSE c.x
                             ELSE IF Lt(c.y, c.x) THEN c.y ELSE c.x
  IN IF c.float /\ (Nan(c.x) \/ Nan(c.y))
     THEN IF Inf(c.x, dom) \/ Inf(c.y, dom) THEN Inf(c.r, dom) ELSE Nan(c.r)
     ELSE c.r = pick
=============================================================================
