---- MODULE Alphabet ----
(***************************************************************************)
(* The alphabet of noodle: 26 letters, one code for every kind of          *)
(* punctuation, and one for the end of a word (a space).  A word is its    *)
(* text, reduced to that alphabet, with a word end appended.               *)
(* Text is a sequence of Unicode code points throughout the specification. *)
(***************************************************************************)
EXTENDS Integers, Sequences, CharTable

Letters == 0..25
Punct == 26
WordEnd == 27
AnyChar == 0..27

IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c \in 48..57

AsciiCode(c) ==
    IF IsLower(c) THEN c - 97
    ELSE IF IsUpper(c) THEN c - 65
    ELSE IF c = 32 \/ c = 95 THEN WordEnd
    ELSE Punct

\* What one code point of a text contributes to the word
CharCodes(c) ==
    IF c < 128 THEN <<AsciiCode(c)>>
    ELSE CharFind(c, 1, Len(CharRows))

RECURSIVE NormaliseFrom(_, _)
NormaliseFrom(text, i) ==
    IF i > Len(text) THEN <<WordEnd>> ELSE CharCodes(text[i]) \o NormaliseFrom(text, i + 1)
Normalise(text) == NormaliseFrom(text, 1)

\* Lexicographic order on sequences of integers: -1, 0 or 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

\* The order of word lists: by tranche, then alphabetically, then by text, then by score.
\* A word is [t |-> text, r |-> tranche, s |-> score].
WordCmp(v, w) ==
    IF v.r # w.r THEN (IF v.r < w.r THEN -1 ELSE 1)
    ELSE LET c == Cmp(Normalise(v.t), Normalise(w.t)) IN
         IF c # 0 THEN c
         ELSE LET d == Cmp(v.t, w.t) IN
              IF d # 0 THEN d
              ELSE IF v.s < w.s THEN -1 ELSE IF v.s > w.s THEN 1 ELSE 0
====
