---- MODULE Language ----
(***************************************************************************)
(* What an expression matches.  A phrase is matched as one text: the codes *)
(* of its words, one after another (each ending in WordEnd), without those *)
(* the expression ignores.                                                 *)
(*                                                                         *)
(* An expression relates positions of the text: from a position it can     *)
(* reach every position up to which it can consume the text.  With edits,  *)
(* positions are graded by the number of edits spent: a frontier F is a    *)
(* tuple of sets of positions (0..n), F[c+1] for c edits.                  *)
(*                                                                         *)
(* Edits (Levenshtein): drop a character of the text; add a letter that    *)
(* the text lacks; change a character of the text to another letter.       *)
(* What is added, or changed to, must be a letter the expression has at    *)
(* that place: spaces and punctuation are never invented.                  *)
(***************************************************************************)
EXTENDS Grammar, TLC, FiniteSets

\* Dropping characters of the text, n long
RECURSIVE DropFrom(_, _, _)
DropFrom(F, n, c) ==
    IF c > Len(F) THEN F
    ELSE DropFrom([F EXCEPT ![c] = @ \cup {i + 1 : i \in {j \in F[c - 1] : j < n}}], n, c + 1)
Drop(F, n) == IF Len(F) = 1 THEN F ELSE DropFrom(F, n, 2)

Union2(F, G) == TLCEval([c \in 1..Len(F) |-> F[c] \cup G[c]])

\* One character of the class S
CharStep(S, t, F) ==
    LET G == Drop(F, Len(t))
        next(P) == {i + 1 : i \in {j \in P : j < Len(t)}}
        exact(P) == {i + 1 : i \in {j \in P : j < Len(t) /\ t[j + 1] \in S}}
        editable == S \cap Letters # {}
    IN TLCEval([c \in 1..Len(G) |->
           IF c = 1 \/ ~editable THEN exact(G[c])
           ELSE exact(G[c]) \cup next(G[c - 1]) \cup G[c - 1]])

--------------------------------------------------------------------------
\* Anagrams: how often a code occurs in a bank, or in t[i+1..j]
Count(b, c) == Cardinality({x \in 1..Len(b) : b[x] = c})
CountIn(t, i, j, c) == Cardinality({x \in i+1..j : t[x] = c})
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
BankSet(b) == {b[x] : x \in 1..Len(b)}

\* Is t[i+1..j] in the anagram's language?
InAnagram(x, t, i, j) ==
    LET z == Len(x.b)
        n == j - i
        atLeast == \A c \in BankSet(x.b) : CountIn(t, i, j, c) >= Count(x.b, c)
        atMost == \A y \in i+1..j : CountIn(t, i, j, t[y]) <= Count(x.b, t[y])
        letters == \A y \in i+1..j : t[y] \in Letters
    IN CASE x.a = "standard" -> n = z /\ atMost
         [] x.a = "super" -> atLeast /\ letters
         [] x.a = "add" -> n = z + x.n /\ atLeast /\ letters
         [] x.a = "sub" -> atMost
         [] x.a = "delete" -> n = z - Min(z, x.n) /\ atMost

\* Without edits inside the anagram itself
AnagramStep(x, t, F) ==
    TLCEval([c \in 1..Len(F) |-> UNION {{j \in i..Len(t) : InAnagram(x, t, i, j)} : i \in F[c]}])

--------------------------------------------------------------------------
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsTimes(_, _, _, _), EndsMore(_, _, _, _, _), EndsAlt(_, _, _, _), EndsRun(_, _, _, _, _), EndsSub(_, _, _, _)

EndsSeq(ts, i, t, F) == IF i > Len(ts) THEN F ELSE EndsSeq(ts, i + 1, t, TLCEval(Ends(ts[i], t, F)))
EndsTimes(x, n, t, F) == IF n = 0 THEN F ELSE EndsTimes(x, n - 1, t, TLCEval(Ends(x, t, F)))
\* Up to n more times (n < 0: any number): acc gathers the frontiers
EndsMore(x, n, t, F, acc) ==
    IF n = 0 THEN acc
    ELSE LET G == TLCEval(Ends(x, t, F))
             more == Union2(acc, G)
         IN IF more = acc THEN acc ELSE EndsMore(x, n - 1, t, G, more)
EndsAlt(ts, i, t, F) ==
    IF i = Len(ts) THEN Ends(ts[i], t, F) ELSE Union2(Ends(ts[i], t, F), EndsAlt(ts, i + 1, t, F))
\* The terms i, i+1, ..., stopping after any of them
EndsRun(ts, i, t, F, acc) ==
    IF i > Len(ts) THEN acc
    ELSE LET G == TLCEval(Ends(ts[i], t, F)) IN EndsRun(ts, i + 1, t, G, Union2(acc, G))
EndsSub(ts, i, t, F) ==   \* starting at any of the terms i, i+1, ...
    IF i > Len(ts) THEN F ELSE Union2(EndsRun(ts, i, t, F, F), EndsSub(ts, i + 1, t, F))

Ends(x, t, F) ==
    CASE x.k = "chr" -> CharStep(x.s, t, F)
      [] x.k = "seq" -> EndsSeq(x.t, 1, t, F)
      [] x.k = "alt" -> EndsAlt(x.t, 1, t, F)
      [] x.k = "sub" -> EndsSub(x.t, 1, t, F)
      [] x.k = "rep" ->
           LET G == EndsTimes(x.t[1], x.lo, t, F) IN
           EndsMore(x.t[1], IF x.hi = NoBound THEN -1 ELSE x.hi - x.lo, t, G, G)
      [] x.k = "ana" -> AnagramStep(x, t, F)

\* Text as an expression e sees it: [ast, wb, pu, fz]
Visible(e, t) == SelectSeq(t, LAMBDA c : (c # WordEnd \/ e.wb) /\ (c # Punct \/ e.pu))

Trailing == Rep(Chr({WordEnd}), 0, NoBound)
StartAt(fz) == TLCEval([c \in 1..(fz + 1) |-> IF c = 1 THEN {0} ELSE {}])
MatchesText(ast, fz, t) ==
    LET F == Drop(Ends(Trailing, t, Ends(ast, t, StartAt(fz))), Len(t)) IN
    \E c \in 1..Len(F) : Len(t) \in F[c]
Matches(e, t) == MatchesText(e.ast, e.fz, Visible(e, t))

--------------------------------------------------------------------------
\* Anagrams are decided only approximately when combined with other syntax: the guarantee is "no
\* false negatives".  The relaxations say which false positives are allowed: a text must satisfy
\* each of the n + 1 expressions in which every anagram (of at most n different letters) is relaxed
\* to one of its own: the right number of one of its letters, or the right length.
RECURSIVE HasAnagram(_)
HasAnagram(x) ==
    CASE x.k = "chr" -> FALSE
      [] x.k = "ana" -> TRUE
      [] OTHER -> \E i \in 1..Len(x.t) : HasAnagram(x.t[i])
RECURSIVE Variety(_)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
Variety(x) ==   \* the number of different letters in its richest anagram
    CASE x.k = "chr" -> 0
      [] x.k = "ana" -> Cardinality(BankSet(x.b))
      [] OTHER -> MaxOf({Variety(x.t[i]) : i \in 1..Len(x.t)})

RECURSIVE NthLetter(_, _)
NthLetter(S, n) == LET m == CHOOSE c \in S : \A d \in S : c <= d IN IF n = 1 THEN m ELSE NthLetter(S \ {m}, n - 1)
RECURSIVE Interleave(_, _, _)
Interleave(fill, one, n) == IF n = 0 THEN <<fill>> ELSE <<fill, one>> \o Interleave(fill, one, n - 1)

RelaxAnagram(x, n) ==
    LET S == BankSet(x.b)
        z == Len(x.b)
        c == NthLetter(S, n)
        fill == IF x.a \in {"super", "add"} THEN Letters ELSE S \ {c}
        one == IF x.a \in {"sub", "delete"} THEN Rep(Chr({c}), 0, 1) ELSE Chr({c})
        less == z - Min(z, x.n)
    IN IF n <= Cardinality(S) THEN SeqOf(Interleave(Rep(Chr(fill), 0, NoBound), one, Count(x.b, c)))
       ELSE CASE x.a = "standard" -> Rep(Chr(S), z, z)
              [] x.a = "sub" -> Rep(Chr(S), 0, z)
              [] x.a = "delete" -> Rep(Chr(S), less, less)
              [] x.a = "super" -> Rep(Chr(Letters), z, NoBound)
              [] x.a = "add" -> Rep(Chr(Letters), z + x.n, z + x.n)
RECURSIVE Relax(_, _)
Relax(x, n) ==
    CASE x.k = "chr" -> x
      [] x.k = "ana" -> RelaxAnagram(x, n)
      [] x.k = "rep" -> [x EXCEPT !.t = <<Relax(x.t[1], n)>>]
      [] OTHER -> [x EXCEPT !.t = TLCEval([i \in 1..Len(x.t) |-> Relax(x.t[i], n)])]
Relaxations(e) ==
    TLCEval([n \in 1..(Variety(e.ast) + 1) |-> [e EXCEPT !.ast = Relax(e.ast, n)]])
RECURSIVE RelaxAll(_, _)
RelaxAll(exprs, i) ==
    IF i > Len(exprs) THEN <<>>
    ELSE (IF HasAnagram(exprs[i].ast) THEN Relaxations(exprs[i]) ELSE <<exprs[i]>>) \o RelaxAll(exprs, i + 1)
====
