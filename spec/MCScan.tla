---- MODULE MCScan ----
(***************************************************************************)
(* How the words of the list are looked at, checked against what it is     *)
(* for.  Every expression has a reader, with a table of what it knew after *)
(* each character of the last word it read; for the next word it only      *)
(* reads what comes after their common beginning.  A reader stops at a     *)
(* beginning which is dead.  The second reader only gets the words which   *)
(* the first one read to their end, when a word was found by the first.    *)
(* The scan may be interrupted before any word.                            *)
(*                                                                         *)
(* What is known after a beginning is abstract: the beginning itself.      *)
(*   at     how many words each reader has read                            *)
(*   tab    what each reader's table says: tab[m][k] after k characters    *)
(*   chars  the word which the table is about, as far as it was read       *)
(*   alive  the words which were read to their end                         *)
(***************************************************************************)
EXTENDS Alphabet, FiniteSets, TLC

E == 9   \* the end of a word
All == <<<<1, 1, E>>, <<1, 2, E>>, <<1, E>>, <<2, E>>>>    \* in order
Width == 3
NReaders == 2
VARIABLES pb, phase, at, tab, chars, alive, found
vars == <<pb, phase, at, tab, chars, alive, found>>

Beginnings(w) == {SubSeq(w, 1, k) : k \in 1..Len(w)}
RECURSIVE Subsequence(_, _)
Subsequence(S, i) == IF i > Len(All) THEN <<>> ELSE (IF i \in S THEN <<All[i]>> ELSE <<>>) \o Subsequence(S, i + 1)
Set(s) == {s[i] : i \in 1..Len(s)}

\* A reader: the words which may be part of a match, those which are one, and whether dead beginnings
\* are noticed before the end
Readers == {<<live, match, keen>> \in (SUBSET Set(All)) \X (SUBSET Set(All)) \X BOOLEAN : match \subseteq live}
Dead(r, p) == LET live == UNION {Beginnings(w) : w \in r[1]} IN
              IF p[Len(p)] = E THEN p \notin r[1] ELSE r[3] /\ p \notin live
Unknown == <<0>>

Init == /\ \E S \in SUBSET (1..Len(All)), a \in Readers, b \in Readers : pb = [list |-> Subsequence(S, 1), rd |-> <<a, b>>]
        /\ phase = "scan" /\ found = <<>>
        /\ at = [m \in 1..NReaders |-> 0]
        /\ tab = [m \in 1..NReaders |-> [k \in 1..Width |-> Unknown]]
        /\ chars = [m \in 1..NReaders |-> <<>>]
        /\ alive = [m \in 1..NReaders |-> <<>>]

RECURSIVE Common(_, _, _)
Common(v, w, k) == IF k < Len(v) /\ k < Len(w) /\ v[k + 1] = w[k + 1] THEN Common(v, w, k + 1) ELSE k

\* One reader's state: [t, c, l] (table, characters, alive words); it reads w
RECURSIVE Fill(_, _, _, _)
Fill(r, t, w, k) ==    \* fills t after k characters; how far it got
    IF k > Len(w) THEN [t |-> t, n |-> Len(w)]
    ELSE LET known == IF k = 1 THEN <<w[1]>> ELSE Append(t[k - 1], w[k]) IN
         \* (what it fills in follows from what it has before)
         IF Dead(r, known) THEN [t |-> [t EXCEPT ![k] = known], n |-> k - 1]
         ELSE Fill(r, [t EXCEPT ![k] = known], w, k + 1)
ReadWord(r, s, w) ==
    LET p == Common(s.c, w, 0)
        f == Fill(r, s.t, w, p + 1)
        whole == f.n = Len(w)
    IN [t |-> f.t, c |-> SubSeq(w, 1, f.n), l |-> IF whole THEN Append(s.l, w) ELSE s.l,
        \* it is found if what the table says after the word is a match
        hit |-> whole /\ f.t[Len(w)] \in r[2]]
\* Reads words from the i-th on; the last one which was found
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(r, s, ws, i, last) ==
    IF i > Len(ws) THEN [s |-> s, last |-> last]
    ELSE LET x == ReadWord(r, s, ws[i]) IN
         ReadAll(r, [t |-> x.t, c |-> x.c, l |-> x.l], ws, i + 1, IF x.hit THEN ws[i] ELSE last)

State(m) == [t |-> tab[m], c |-> chars[m], l |-> alive[m]]
One ==
    /\ phase = "scan" /\ at[1] < Len(pb.list)
    /\ LET w == pb.list[at[1] + 1]
           x == ReadWord(pb.rd[1], State(1), w)
           y == IF x.hit THEN ReadAll(pb.rd[2], State(2), x.l, at[2] + 1, <<>>) ELSE [s |-> State(2), last |-> <<>>]
       IN /\ at' = [at EXCEPT ![1] = @ + 1, ![2] = IF x.hit THEN Len(x.l) ELSE @]
          /\ tab' = <<x.t, y.s.t>> /\ chars' = <<x.c, y.s.c>> /\ alive' = <<x.l, y.s.l>>
          /\ found' = IF x.hit /\ y.last = w THEN Append(found, w) ELSE found
    /\ UNCHANGED <<pb, phase>>
\* At the end the second reader gets the rest
End == /\ phase = "scan" /\ at[1] = Len(pb.list)
       /\ LET y == ReadAll(pb.rd[2], State(2), alive[1], at[2] + 1, <<>>) IN
          /\ tab' = [tab EXCEPT ![2] = y.s.t] /\ chars' = [chars EXCEPT ![2] = y.s.c] /\ alive' = [alive EXCEPT ![2] = y.s.l]
          /\ at' = [at EXCEPT ![2] = Len(alive[1])]
       /\ phase' = "done" /\ UNCHANGED <<pb, found>>
Interrupted == phase = "scan" /\ UNCHANGED vars
Next == One \/ End \/ Interrupted
Spec == Init /\ [][Next]_vars

IsPrefix(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
\* The table says what is known after the beginnings of the characters it is about
TableOk == \A m \in 1..NReaders : \A k \in 1..Len(chars[m]) : tab[m][k] = SubSeq(chars[m], 1, k)
\* The words found are the matches, in order
FoundOk == LET n == at[1]
               seen == [i \in 1..n |-> pb.list[i]]
           IN found = SelectSeq(seen, LAMBDA w : w \in pb.rd[1][2] /\ w \in pb.rd[2][2])
AliveOk == phase = "done" =>
    /\ alive[1] = SelectSeq(pb.list, LAMBDA w : w \in pb.rd[1][1])
    /\ alive[2] = SelectSeq(alive[1], LAMBDA w : w \in pb.rd[2][1])
====
