---- MODULE Grammar ----
(***************************************************************************)
(* The query language, line by line: what a line of a query means, as a    *)
(* deterministic parser.  Spaces and comments may appear between tokens.   *)
(* Positions are 1-based; a result is [ok, at, v] with `at' the position   *)
(* after what was parsed.                                                  *)
(*                                                                         *)
(* Abstract syntax of an expression (a finite tree of records):            *)
(*   [k |-> "chr", s |-> set of codes]                                     *)
(*   [k |-> "seq", t |-> terms]   [k |-> "alt", t |-> terms]               *)
(*   [k |-> "sub", t |-> terms]          a contiguous run of the terms     *)
(*   [k |-> "rep", t |-> <<term>>, lo, hi]     hi = -1: without bound      *)
(*   [k |-> "ana", a |-> kind, n |-> number, b |-> bank of codes]          *)
(***************************************************************************)
EXTENDS Alphabet, FiniteSets, TLC

NoBound == -1
Chr(S) == [k |-> "chr", s |-> S]
SeqOf(ts) == [k |-> "seq", t |-> ts]
AltOf(ts) == [k |-> "alt", t |-> ts]
SubOf(ts) == [k |-> "sub", t |-> ts]
Rep(x, lo, hi) == [k |-> "rep", t |-> <<x>>, lo |-> lo, hi |-> hi]
Ana(kind, n, bank) == [k |-> "ana", a |-> kind, n |-> n, b |-> bank]

Fail == [ok |-> FALSE, at |-> 0, v |-> 0]
Done(at, v) == [ok |-> TRUE, at |-> at, v |-> v]

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
Eoi(s, i) == i > Len(s)
Is2(s, i, a, b) == At(s, i) = a /\ At(s, i + 1) = b
Is3(s, i, a, b, c) == Is2(s, i, a, b) /\ At(s, i + 2) = c

\* Position after the next "*/" at or after i, or 0
RECURSIVE CloseOf(_, _)
CloseOf(s, i) == IF i + 1 > Len(s) THEN 0 ELSE IF Is2(s, i, 42, 47) THEN i + 2 ELSE CloseOf(s, i + 1)

\* Spaces, // and -- comments to the end of the line, /* */ comments
RECURSIVE Skip(_, _)
Skip(s, i) ==
    IF At(s, i) = 32 THEN Skip(s, i + 1)
    ELSE IF Is2(s, i, 47, 47) \/ Is2(s, i, 45, 45) THEN Len(s) + 1
    ELSE IF Is2(s, i, 47, 42)
         THEN LET j == CloseOf(s, i + 2) IN IF j = 0 THEN i ELSE Skip(s, j)
    ELSE i

--------------------------------------------------------------------------
\* Numbers.  Values are capped: anything above MaxNumber is only "too large".
MaxNumber == 65535
Capped(n) == IF n > 70000 THEN 70000 ELSE n

RECURSIVE NumberFrom(_, _, _)
NumberFrom(s, i, acc) ==
    IF IsDigit(At(s, i)) THEN NumberFrom(s, i + 1, Capped(acc * 10 + (s[i] - 48))) ELSE Done(i, acc)
Number(s, i) == IF IsDigit(At(s, i)) THEN NumberFrom(s, i, 0) ELSE Fail

--------------------------------------------------------------------------
\* [abc], [a-c], [^abc]
IsClassChar(c) == IsAlpha(c) \/ c = 46 \/ c = 39 \/ c = 95
RangeSet(lo, hi) == {AsciiCode(c) : c \in lo..hi}
RangeAt(s, i) ==   \* letter "-" letter
    LET j == Skip(s, i + 1)
        m == Skip(s, j + 1)
    IN IF IsAlpha(At(s, i)) /\ At(s, j) = 45 /\ IsAlpha(At(s, m))
       THEN Done(m + 1, RangeSet(s[i], s[m])) ELSE Fail
ClassItem(s, i) ==
    LET r == RangeAt(s, i) IN
    IF r.ok THEN r
    ELSE IF IsClassChar(At(s, i)) THEN Done(i + 1, {AsciiCode(s[i])}) ELSE Fail
RECURSIVE ClassItems(_, _, _)
ClassItems(s, i, acc) ==   \* i: after the items so far
    LET r == ClassItem(s, Skip(s, i)) IN
    IF r.ok THEN ClassItems(s, r.at, acc \cup r.v) ELSE Done(i, acc)
\* Complement among the letters; other codes are kept
InvertSet(S) == (Letters \ S) \cup (S \ Letters)
Class(s, i) ==
    LET a == Skip(s, i + 1)
        inv == At(s, a) = 94
        b == IF inv THEN Skip(s, a + 1) ELSE a
        first == ClassItem(s, b)
        r == ClassItems(s, first.at, first.v)
        e == Skip(s, r.at)
    IN IF first.ok /\ At(s, e) = 93
       THEN Done(e + 1, Chr(IF inv THEN InvertSet(r.v) ELSE r.v)) ELSE Fail

--------------------------------------------------------------------------
\* <abc>, <abc+>, <abc->, <abc+2>, <abc-2>
RECURSIVE Bank(_, _, _)
Bank(s, i, acc) ==   \* i: after the letters so far
    LET j == Skip(s, i) IN IF IsAlpha(At(s, j)) THEN Bank(s, j + 1, Append(acc, AsciiCode(s[j]))) ELSE Done(i, acc)
Anagram(s, i) ==
    LET a == Skip(s, i + 1)
        letters == Bank(s, a, <<>>)
        bank == letters.v
        j == Skip(s, letters.at)
        num == Number(s, Skip(s, j + 1))
        z == Skip(s, num.at)
    IN IF ~IsAlpha(At(s, a)) THEN Fail
       ELSE IF At(s, j) = 62 THEN Done(j + 1, Ana("standard", 0, bank))
       ELSE IF Is2(s, j, 43, 62) THEN Done(j + 2, Ana("super", 0, bank))
       ELSE IF Is2(s, j, 45, 62) THEN Done(j + 2, Ana("sub", 0, bank))
       ELSE IF At(s, j) \in {43, 45} /\ num.ok /\ At(s, z) = 62
            THEN Done(z + 1, Ana(IF s[j] = 43 THEN "add" ELSE "delete", num.v, bank))
       ELSE Fail

--------------------------------------------------------------------------
AnyRun == Rep(Chr(AnyChar), 0, NoBound)
RECURSIVE SupersetTerms(_, _)
SupersetTerms(ts, i) == IF i > Len(ts) THEN <<AnyRun>> ELSE <<AnyRun, ts[i]>> \o SupersetTerms(ts, i + 1)
Enumeration(n) == SeqOf(<<Rep(Chr(Letters), n, n), Chr({WordEnd})>>)

\* The repetition suffix at i, if any: v is <<lo, hi>>
Suffix(s, i) ==
    LET c == At(s, i)
        n1 == Number(s, Skip(s, i + 1))      \* "{" n
        j == Skip(s, n1.at)
        m1 == Number(s, Skip(s, i + 2))      \* "{," n
        jm == Skip(s, m1.at)
        n2 == Number(s, Skip(s, j + 1))      \* "{" n "," m
        j2 == Skip(s, n2.at)
    IN CASE c = 63 -> Done(i + 1, <<0, 1>>)
         [] c = 42 -> Done(i + 1, <<0, NoBound>>)
         [] c = 43 -> Done(i + 1, <<1, NoBound>>)
         [] c = 123 ->
              IF At(s, i + 1) = 44 /\ m1.ok /\ At(s, jm) = 125 THEN Done(jm + 1, <<0, m1.v>>)
              ELSE IF ~n1.ok THEN Fail
              ELSE IF At(s, j) = 125 THEN Done(j + 1, <<n1.v, n1.v>>)
              ELSE IF Is2(s, j, 44, 125) THEN Done(j + 2, <<n1.v, NoBound>>)
              ELSE IF At(s, j) = 44 /\ n2.ok /\ At(s, j2) = 125 THEN Done(j2 + 1, <<n1.v, n2.v>>)
              ELSE Fail
         [] OTHER -> Fail

RECURSIVE Term(_, _), Element(_, _), Elements(_, _, _, _), SequenceP(_, _), MoreAlts(_, _, _), SubExpr(_, _)
\* (bare: it is a term, or a sequence of terms, without repetitions)
With(r, bare) == [ok |-> r.ok, at |-> r.at, v |-> r.v, bare |-> bare]

Term(s, i) ==
    LET c == At(s, i) IN
    CASE c = 91 -> Class(s, i)
      [] c = 46 -> Done(i + 1, Chr(Letters))
      [] c = 60 -> Anagram(s, i)
      [] IsDigit(c) -> LET r == Number(s, i) IN Done(r.at, Enumeration(r.v))
      [] IsAlpha(c) \/ c = 39 \/ c = 95 -> Done(i + 1, Chr({AsciiCode(c)}))
      [] c = 40 ->
           LET g == SubExpr(s, Skip(s, i + 1))
               e == Skip(s, g.at)
               ts == g.v.t
           IN IF ~g.ok THEN Fail
              ELSE IF At(s, e) = 41 THEN Done(e + 1, g.v)
              \* the bodies of (..:^) and the like
              ELSE IF ~g.bare THEN Fail
              ELSE IF Is3(s, e, 58, 94, 41) THEN Done(e + 3, SubOf(ts))
              ELSE IF Is3(s, e, 58, 45, 41)
                   THEN Done(e + 3, SeqOf([x \in 1..Len(ts) |-> Rep(ts[x], 0, 1)]))
              ELSE IF Is3(s, e, 58, 43, 41) THEN Done(e + 3, SeqOf(SupersetTerms(ts, 1)))
              ELSE Fail
      [] OTHER -> Fail

Element(s, i) ==
    LET t == Term(s, i) IN
    IF ~t.ok THEN Fail
    ELSE LET x == Suffix(s, Skip(s, t.at)) IN
         IF x.ok THEN With(Done(x.at, Rep(t.v, x.v[1], x.v[2])), FALSE) ELSE With(t, TRUE)

Elements(s, i, acc, bare) ==
    LET r == Element(s, Skip(s, i)) IN
    IF r.ok THEN Elements(s, r.at, Append(acc, r.v), bare /\ r.bare) ELSE With(Done(i, acc), bare)

SequenceP(s, i) ==
    LET r == Element(s, i) IN
    IF ~r.ok THEN Fail
    ELSE LET rest == Elements(s, r.at, <<r.v>>, r.bare) IN With(Done(rest.at, SeqOf(rest.v)), rest.bare)

MoreAlts(s, i, acc) ==
    LET j == Skip(s, i) IN
    IF At(s, j) # 124 THEN Done(i, acc)
    ELSE LET r == SequenceP(s, Skip(s, j + 1)) IN
         IF r.ok THEN MoreAlts(s, r.at, Append(acc, r.v)) ELSE Done(i, acc)

SubExpr(s, i) ==
    LET r == SequenceP(s, i) IN
    IF ~r.ok THEN Fail
    ELSE LET more == MoreAlts(s, r.at, <<r.v>>) IN
         IF Len(more.v) = 1 THEN With(Done(more.at, r.v), r.bare)
         ELSE With(Done(more.at, AltOf(more.v)), FALSE)

--------------------------------------------------------------------------
\* Options after an expression: !_ !' !N
NoOptions == [wb |-> FALSE, pu |-> FALSE, fz |-> 0, big |-> FALSE]
RECURSIVE OptionsP(_, _, _)
OptionsP(s, i, o) ==
    LET j == Skip(s, i)
        c == At(s, j + 1)
        n == Number(s, Skip(s, j + 1))
    IN IF At(s, j) # 33 THEN Done(i, o)
       ELSE IF c = 95 THEN OptionsP(s, j + 2, [o EXCEPT !.wb = TRUE])
       ELSE IF c = 39 THEN OptionsP(s, j + 2, [o EXCEPT !.pu = TRUE])
       ELSE IF n.ok THEN OptionsP(s, n.at, [o EXCEPT !.fz = n.v, !.big = o.big \/ n.v > MaxNumber])
       ELSE Done(i, o)

\* Does a code occur in a class or a bank of the expression?
RECURSIVE Mentions(_, _)
Mentions(x, c) ==
    CASE x.k = "chr" -> c \in x.s
      [] x.k = "ana" -> \E i \in 1..Len(x.b) : x.b[i] = c
      [] OTHER -> \E i \in 1..Len(x.t) : Mentions(x.t[i], c)

\* Numbers which make no sense
RECURSIVE NumbersOk(_)
NumbersOk(x) ==
    CASE x.k = "chr" -> TRUE
      [] x.k = "ana" -> x.n <= MaxNumber
      [] x.k = "rep" -> /\ x.lo <= MaxNumber /\ x.hi <= MaxNumber
                        /\ x.hi = NoBound \/ x.lo <= x.hi
                        /\ NumbersOk(x.t[1])
      [] OTHER -> \A i \in 1..Len(x.t) : NumbersOk(x.t[i])

\* A bound on the size of the automaton, capped; expressions beyond MaxSize are refused
MaxSize == 16384
RECURSIVE SizeBound(_), SumSizes(_, _)
SumSizes(ts, i) == IF i > Len(ts) THEN 1 ELSE Capped(1 + SizeBound(ts[i]) + SumSizes(ts, i + 1))
SizeBound(x) ==
    CASE x.k = "chr" -> 1
      [] x.k = "ana" -> Capped(6 * (Len(x.b) + 1) + IF x.a = "add" THEN x.n ELSE 0)
      [] x.k = "rep" ->
           LET n == IF x.hi > x.lo THEN x.hi ELSE x.lo
               m == IF n < 1 THEN 1 ELSE n
               z == SizeBound(x.t[1])
           IN IF m > MaxSize \/ z > MaxSize THEN MaxSize + 1 ELSE IF z > (MaxSize \div m) THEN MaxSize + 1 ELSE 2 + m * z
      [] OTHER -> SumSizes(x.t, 1)

\* Tables of every two states, for every number of edits, have to fit in memory
MaxTable == 536870912
TooLarge(size, fz) == size >= MaxSize \/ size * size > MaxTable \div (fz + 1)

\* Lines which are too long (in bytes), or with groups which are nested too deeply, are refused
MaxLine == 65536
MaxNesting == 100
ByteLength(s) ==
    LET From(c) == Cardinality({i \in 1..Len(s) : s[i] >= c})
    IN Len(s) + From(128) + From(2048) + From(65536)
RECURSIVE DeepFrom(_, _, _)
DeepFrom(s, i, d) ==
    IF d > MaxNesting THEN TRUE
    ELSE IF i > Len(s) THEN FALSE
    ELSE DeepFrom(s, i + 1, IF s[i] = 40 THEN d + 1 ELSE IF d > 0 THEN d - 1 ELSE d)
TooDeep(s) == Cardinality({i \in 1..Len(s) : s[i] = 40}) > MaxNesting
              /\ DeepFrom(TLCEval(SelectSeq(s, LAMBDA c : c \in {40, 41})), 1, 0)
LineOk(s) == ~(4 * Len(s) > MaxLine /\ ByteLength(s) > MaxLine) /\ ~TooDeep(s)

\* The expression which a text stands for, whatever its size
Written(s) ==
    LET r == SubExpr(s, Skip(s, 1))
        o == OptionsP(s, r.at, NoOptions)
    IN IF ~r.ok THEN Fail
       ELSE IF ~Eoi(s, Skip(s, o.at)) THEN Fail
       ELSE IF o.v.big \/ ~NumbersOk(r.v) THEN Fail
       ELSE Done(Len(s) + 1, [ast |-> r.v,
                              wb |-> o.v.wb \/ Mentions(r.v, WordEnd),
                              pu |-> o.v.pu \/ Mentions(r.v, Punct),
                              fz |-> o.v.fz])
Expression(s) ==
    IF ~LineOk(s) THEN Fail
    ELSE LET w == Written(s) IN
         IF ~w.ok THEN Fail
         ELSE IF TooLarge(SizeBound(w.v.ast), w.v.fz) THEN Fail
         ELSE w

--------------------------------------------------------------------------
\* Pragmas and macros
Fold(c) == IF IsUpper(c) THEN c + 32 ELSE c
Keyword(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A x \in 1..Len(w) : Fold(s[i + x - 1]) = w[x]
KwWords == <<35, 119, 111, 114, 100, 115>>
KwDict == <<35, 100, 105, 99, 116>>
KwDictionary == KwDict \o <<105, 111, 110, 97, 114, 121>>
KwLimit == <<35, 108, 105, 109, 105, 116>>
KwQuiet == <<35, 113, 117, 105, 101, 116>>
KwWordlist == <<35, 119, 111, 114, 100, 108, 105, 115, 116>>

IsNameChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {46, 39, 95, 45}
RECURSIVE RunOfName(_, _), RunOfMacro(_, _), RunOfValueSlow(_, _)
RunOfName(s, i) == IF IsNameChar(At(s, i)) THEN RunOfName(s, i + 1) ELSE i
RunOfMacro(s, i) == IF IsAlpha(At(s, i)) \/ IsDigit(At(s, i)) \/ At(s, i) = 95 THEN RunOfMacro(s, i + 1) ELSE i
\* i: after a character of the value
RunOfValueSlow(s, i) == LET j == Skip(s, i) IN IF At(s, j) \in 32..126 THEN RunOfValueSlow(s, j + 1) ELSE i
RECURSIVE LastFrom(_, _, _)
LastFrom(s, e, i) == IF e >= i /\ s[e] = 32 THEN LastFrom(s, e - 1, i) ELSE e
\* (the same, without recursion, if there are no comments)
RunOfValue(s, i) ==
    IF \A x \in i..Len(s) : s[x] \in 32..126 /\ ~(s[x] \in {45, 47} /\ At(s, x + 1) \in {42, 45, 47})
    THEN LET e == LastFrom(s, Len(s), i) IN IF e < i THEN i ELSE e + 1
    ELSE RunOfValueSlow(s, i)

\* A number too long for 64 bits is ignored (as if the pragma had none); Huge stands for all those of
\* ten digits or more which are not
Huge == -2
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF IsDigit(At(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE PlainNumber(_, _, _)
PlainNumber(s, i, acc) == IF IsDigit(At(s, i)) THEN PlainNumber(s, i + 1, acc * 10 + s[i] - 48) ELSE acc
RECURSIVE ZerosEnd(_, _)
ZerosEnd(s, i) == IF At(s, i) = 48 THEN ZerosEnd(s, i + 1) ELSE i
Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>   \* 18446744073709551615
NumberValue(s, i) ==
    LET z == ZerosEnd(s, i)
        e == DigitsEnd(s, i)
        digits == SubSeq(s, z, e - 1)
    IN IF e - z <= 9 THEN PlainNumber(s, z, 0)
       ELSE IF e - z < 20 \/ (e - z = 20 /\ Cmp(digits, Max64) <= 0) THEN Huge
       ELSE -1

NumberPragma(s, i, kind) ==
    LET a == Skip(s, i)
        e == DigitsEnd(s, a)
    IN IF e > a /\ Eoi(s, Skip(s, e)) THEN [kind |-> kind, v |-> NumberValue(s, a)]
       ELSE [kind |-> "error", v |-> 0]
\* The highest bound on the number of words
MaxWords == 1000
NoMoreThan(m, max) == IF m.v \in 0..max THEN m ELSE [kind |-> "error", v |-> 0]
FlagPragma(s, i, kind) == [kind |-> IF Eoi(s, Skip(s, i)) THEN kind ELSE "error", v |-> 0]
DictPragma(s, i) ==
    LET a == Skip(s, i)
        e == RunOfName(s, a)
    IN IF e > a /\ Eoi(s, Skip(s, e)) THEN [kind |-> "dict", v |-> SubSeq(s, a, e - 1)]
       ELSE [kind |-> "error", v |-> 0]

MacroAt(s, i) ==
    LET e == RunOfMacro(s, i)
        q == Skip(s, e)
        a == Skip(s, q + 1)
        z == IF At(s, a) \in 32..126 THEN RunOfValue(s, a + 1) ELSE a
    IN IF IsAlpha(At(s, i)) /\ At(s, q) = 61 /\ Eoi(s, Skip(s, z))
       THEN Done(Len(s) + 1, <<SubSeq(s, i, e - 1), SubSeq(s, a, z - 1)>>) ELSE Fail

\* What a line means: [kind, v]
Line(s) ==
    LET i == Skip(s, 1)
        m == MacroAt(s, i)
        x == Expression(s)
    IN IF ~LineOk(s) THEN [kind |-> "error", v |-> 0]
       ELSE IF Eoi(s, i) THEN [kind |-> "empty", v |-> 0]
       ELSE IF At(s, i) = 35 THEN
            CASE Keyword(s, i, KwWords) -> NoMoreThan(NumberPragma(s, i + 6, "words"), MaxWords)
              [] Keyword(s, i, KwDictionary) -> DictPragma(s, i + 11)
              [] Keyword(s, i, KwDict) -> DictPragma(s, i + 5)
              [] Keyword(s, i, KwLimit) -> NumberPragma(s, i + 6, "limit")
              [] Keyword(s, i, KwQuiet) -> FlagPragma(s, i + 6, "quiet")
              [] Keyword(s, i, KwWordlist) -> FlagPragma(s, i + 9, "wordlist")
              [] OTHER -> [kind |-> "error", v |-> 0]
       ELSE IF m.ok THEN [kind |-> "macro", v |-> m.v]
       ELSE IF x.ok THEN [kind |-> "expr", v |-> x.v]
       ELSE [kind |-> "error", v |-> 0]
====
