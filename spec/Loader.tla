---- MODULE Loader ----
(***************************************************************************)
(* Loading a word list: a file is a sequence of bytes, read line by line.  *)
(*   tr, cnt, size   the tranche being filled, how many words it has, and  *)
(*                   how many it may have before the next one is begun     *)
(*   kept            the words read so far                                 *)
(* A count may be up to 2^32 - 1: it is a pair <<n \div 100000, n % 100000>> *)
(***************************************************************************)
EXTENDS Alphabet

CONSTANT FirstTranche      \* the size of the first tranche

--------------------------------------------------------------------------
\* Lines end at a newline or at the end of the file; a carriage return before the newline is not part of them
RECURSIVE NewlineFrom(_, _)
NewlineFrom(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = 10 THEN i ELSE NewlineFrom(b, i + 1)
\* The bytes of the line which begins at i and ends before j
LineBytes(b, i, j) ==
    LET e == IF j <= Len(b) /\ j > i /\ b[j - 1] = 13 THEN j - 2 ELSE j - 1 IN SubSeq(b, i, e)

--------------------------------------------------------------------------
\* UTF-8
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
\* The code point at i: <<code point, how many bytes>>, or <<0, 0>> if it is none
Utf8At(b, i) ==
    LET c == b[i] IN
    IF c < 128 THEN <<c, 1>>
    ELSE IF c \in 194..223 THEN IF Cont(b, i + 1) THEN <<(c - 192) * 64 + b[i + 1] - 128, 2>> ELSE <<0, 0>>
    ELSE IF c \in 224..239
         THEN IF Cont(b, i + 1) /\ Cont(b, i + 2)
              THEN LET v == (c - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128 IN
                   IF v < 2048 \/ v \in 55296..57343 THEN <<0, 0>> ELSE <<v, 3>>
              ELSE <<0, 0>>
    ELSE IF c \in 240..244
         THEN IF Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
              THEN LET v == (c - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128 IN
                   IF v < 65536 \/ v > 1114111 THEN <<0, 0>> ELSE <<v, 4>>
              ELSE <<0, 0>>
    ELSE <<0, 0>>
RECURSIVE Utf8From(_, _, _)
Utf8From(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, t |-> acc]
    ELSE LET x == Utf8At(b, i) IN
         IF x[2] = 0 THEN [ok |-> FALSE, t |-> <<>>] ELSE Utf8From(b, i + x[2], Append(acc, x[1]))
Utf8(b) == Utf8From(b, 1, <<>>)

--------------------------------------------------------------------------
Pair(n) == <<n \div 100000, n % 100000>>
PairLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
MaxCount == <<42949, 67295>>
\* The number written by the digits of s from i on, if it is small enough
RECURSIVE CountFrom(_, _, _)
CountFrom(s, i, p) ==
    IF i > Len(s) THEN [ok |-> TRUE, v |-> p]
    ELSE IF ~IsDigit(s[i]) THEN [ok |-> FALSE, v |-> p]
    ELSE LET lo == p[2] * 10 + (s[i] - 48)
             q == <<p[1] * 10 + lo \div 100000, lo % 100000>>
         IN IF PairLE(q, MaxCount) THEN CountFrom(s, i + 1, q) ELSE [ok |-> FALSE, v |-> p]
Count(s) ==
    LET i == IF Len(s) >= 1 /\ s[1] = 43 THEN 2 ELSE 1 IN
    IF i > Len(s) THEN [ok |-> FALSE, v |-> <<0, 0>>] ELSE CountFrom(s, i, <<0, 0>>)

RECURSIVE TabFrom(_, _)
TabFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 9 THEN i ELSE TabFrom(s, i + 1)

\* The word on a line of n bytes which reads t: <<text, score>>
WordOf(t, n) ==
    LET j == TabFrom(t, 1)
        c == Count(SubSeq(t, 1, j - 1))
    IN IF j > 0 /\ c.ok THEN <<SubSeq(t, j + 1, Len(t)), c.v>> ELSE <<t, Pair(n * 200)>>

Plain(t) == \A i \in 1..Len(t) : IsLower(t[i])
Wanted(t) == /\ Len(Normalise(t)) > 2 \/ t = <<73>> \/ t = <<97>>
             /\ \A i \in 1..Len(t) : ~IsDigit(t[i])

--------------------------------------------------------------------------
Start == [tr |-> 0, cnt |-> 0, size |-> FirstTranche, word |-> <<>>]
\* One line; word is then the word kept from it, if any: <<[t, r, s]>>
ReadLine(st, bytes) ==
    LET u == Utf8(bytes)
        w == WordOf(u.t, Len(bytes))
        x == [t |-> w[1], r |-> st.tr + (IF Plain(w[1]) THEN 0 ELSE 1), s |-> w[2]]
    IN IF ~u.ok \/ ~Wanted(w[1]) THEN [st EXCEPT !.word = <<>>]
       ELSE IF st.cnt + 1 > st.size
            THEN [tr |-> st.tr + 1, cnt |-> 0, size |-> st.size + st.size \div 2, word |-> <<x>>]
            ELSE [st EXCEPT !.cnt = @ + 1, !.word = <<x>>]

\* The order of the list: -1 if v comes before w, 0 if they are the same
LoadedCmp(v, w) ==
    IF v.r # w.r THEN (IF v.r < w.r THEN -1 ELSE 1)
    ELSE LET c == Cmp(Normalise(v.t), Normalise(w.t)) IN
         IF c # 0 THEN c
         ELSE LET d == Cmp(v.t, w.t) IN IF d # 0 THEN d ELSE Cmp(v.s, w.s)
InOrder(ws) == \A i \in 1..(Len(ws) - 1) : LoadedCmp(ws[i], ws[i + 1]) <= 0
====
