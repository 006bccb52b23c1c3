---- MODULE Evaluator ----
(***************************************************************************)
(* The evaluation of a query, as its user sees it: a stream of responses.  *)
(*                                                                         *)
(* A problem q is a word list (sorted), expressions, a bound on the number *)
(* of words of a phrase and a limit on the number of results.  First come  *)
(* the matching words, in the order of the list; then the matching phrases *)
(* of 2..depth words.  Phrases are grouped by their length d and by the    *)
(* highest tranche t among their words.  A group is answered as a whole,   *)
(* in the order of the word list; a group (d, t) is answered after every   *)
(* other group (d' <= d, t' <= t).  Then the search completes.             *)
(*                                                                         *)
(* Anagrams combined with other syntax are decided approximately: a        *)
(* candidate has must = TRUE if it is a match, and it may be answered      *)
(* without being one only if it satisfies the relaxed expressions.         *)
(***************************************************************************)
EXTENDS Script, Automaton

NoLimit == -1

--------------------------------------------------------------------------
\* The problem, prepared
Spelled(w) == Normalise(w.t)

RECURSIVE FlatText(_, _, _)
FlatText(norms, p, i) == IF i > Len(p) THEN <<>> ELSE norms[p[i]] \o FlatText(norms, p, i + 1)

Prepare(words, exprs, depth, limit) ==
    LET relaxed == TLCEval(RelaxAll(exprs, 1))
        norms == TLCEval([i \in 1..Len(words) |-> Spelled(words[i])])
        machines == TLCEval([e \in 1..Len(relaxed) |-> Machine(relaxed[e].ast, relaxed[e].fz)])
    IN [words |-> words, exprs |-> exprs, depth |-> depth, limit |-> limit, printed |-> FALSE,
        norms |-> norms,
        machines |-> machines,
        \* what each machine reads for each word
        visible |-> TLCEval([e \in 1..Len(relaxed) |-> [i \in 1..Len(words) |-> Visible(relaxed[e], norms[i])]]),
        approximate |-> \E e \in 1..Len(exprs) : HasAnagram(exprs[e].ast)]

\* Is the phrase p (a sequence of indices into the word list) a match?
Exact(q, p) == \A e \in 1..Len(q.exprs) : Matches(q.exprs[e], FlatText(q.norms, p, 1))

\* The phrases of d more words after p which may be answered, in the order of the list.
\* vs: the state of every machine after p.  top: no words of higher tranches.
RECURSIVE Enumerate(_, _, _, _, _), EnumerateFrom(_, _, _, _, _, _)
Enumerate(q, p, vs, d, top) ==
    IF d = 0 THEN
        IF \A e \in 1..Len(vs) : Accepts(q.machines[e], vs[e])
        THEN <<[p |-> p, must |-> ~q.approximate \/ Exact(q, p)]>> ELSE <<>>
    ELSE EnumerateFrom(q, p, vs, d, top, 1)
EnumerateFrom(q, p, vs, d, top, i) ==
    IF i > Len(q.words) THEN <<>>
    ELSE IF q.words[i].r > top THEN <<>>
    ELSE LET ws == TLCEval([e \in 1..Len(vs) |-> ReadText(q.machines[e], vs[e], q.visible[e][i], 1)])
             here == IF \A e \in 1..Len(vs) : Viable(ws[e])
                     THEN TLCEval(Enumerate(q, Append(p, i), ws, d - 1, top)) ELSE <<>>
             rest == TLCEval(EnumerateFrom(q, p, vs, d, top, i + 1))
         IN IF here = <<>> THEN rest ELSE here \o rest
Candidates(q, d, top) ==
    TLCEval(Enumerate(q, <<>>, TLCEval([e \in 1..Len(q.machines) |-> Initial(q.machines[e])]), d, top))

TopTranche == 255
PhraseTranche(q, p) == MaxOf({q.words[p[i]].r : i \in 1..Len(p)})
InTranche(q, cs, t) == SelectSeq(cs, LAMBDA c : PhraseTranche(q, c.p) = t)

\* All candidates: for single words, and for each group
\* For single words, by the definition of matching rather than with the machines
RECURSIVE SinglesFrom(_, _, _)
SinglesFrom(q, relaxed, i) ==
    IF i > Len(q.words) THEN <<>>
    ELSE LET here == \A e \in 1..Len(relaxed) : MatchesText(relaxed[e].ast, relaxed[e].fz, q.visible[e][i])
             rest == TLCEval(SinglesFrom(q, relaxed, i + 1))
         IN IF here THEN <<[p |-> <<i>>, must |-> ~q.approximate \/ Exact(q, <<i>>)]>> \o rest ELSE rest
Singles(q) == IF q.exprs = <<>> THEN <<>> ELSE SinglesFrom(q, RelaxAll(q.exprs, 1), 1)
GroupsOf(q) ==
    LET all == TLCEval([d \in 2..q.depth |-> Candidates(q, d, TopTranche)])
        tranches == {q.words[i].r : i \in 1..Len(q.words)}
        keys == {<<d, t>> : d \in 2..q.depth, t \in tranches}
        full == TLCEval([g \in keys |-> InTranche(q, all[g[1]], g[2])])
        used == {g \in keys : full[g] # <<>>}
    IN TLCEval([g \in used |-> full[g]])

--------------------------------------------------------------------------
\* The machine.  Its state:
\*   phase: "words", "phrases" or "done"
\*   cur:   the candidates of the current group which are still to come
\*   left:  the groups not yet begun (a function from groups to their candidates)
\*   count: the number of results so far
Begin(q) == [phase |-> "words", cur |-> Singles(q),
             left |-> IF q.depth < 2 \/ q.exprs = <<>> THEN <<>> ELSE GroupsOf(q), count |-> 0]
Unlimited(q) == q.limit = NoLimit
Full(q, s) == ~Unlimited(q) /\ s.count >= q.limit
Settled(cs) == \A i \in 1..Len(cs) : ~cs[i].must
Groups(left) == DOMAIN left
Before(g, h) == g # h /\ g[1] <= h[1] /\ g[2] <= h[2]

\* A phrase as it is printed
RECURSIVE PrintedFrom(_, _, _)
PrintedFrom(q, p, i) == IF i > Len(p) THEN <<>> ELSE (IF i > 1 THEN <<32>> ELSE <<>>) \o q.words[p[i]].t \o PrintedFrom(q, p, i + 1)
Printed(q, p) == PrintedFrom(q, p, 1)

\* Is p the phrase?  (A sequence of words; or, if q is about what is printed, its text.)
Spells(q, p, phrase) ==
    IF q.printed THEN Printed(q, p) = phrase
    ELSE Len(p) = Len(phrase) /\ \A i \in 1..Len(p) : LET w == q.words[p[i]] IN
             w.t = phrase[i].t /\ w.r = phrase[i].r /\ w.s = phrase[i].s
\* Position of the candidate which spells phrase, among those up to the first that must come; or 0
RECURSIVE FindFrom(_, _, _, _)
FindFrom(q, cs, phrase, i) ==
    IF i > Len(cs) THEN 0
    ELSE IF Spells(q, cs[i].p, phrase) THEN i
    ELSE IF cs[i].must THEN 0
    ELSE FindFrom(q, cs, phrase, i + 1)

\* Answering the candidate at position i of the group being answered
Advance(s, i) == [s EXCEPT !.cur = SubSeq(s.cur, i + 1, Len(s.cur)), !.count = @ + 1]
\* Going on to group g
CanOpen(s, g) ==
    /\ s.phase # "done" /\ Settled(s.cur)
    /\ \A h \in Groups(s.left) : Before(h, g) => Settled(s.left[h])
Open(s, g) ==
    [s EXCEPT !.phase = "phrases", !.cur = s.left[g],
              !.left = TLCEval([h \in {k \in Groups(s.left) : k # g /\ ~Before(k, g)} |-> s.left[h]])]

\* The states after answering phrase (none if it may not be answered now)
AfterMatch(q, s, phrase) ==
    IF s.phase = "done" \/ Full(q, s) THEN {}
    ELSE LET here == FindFrom(q, s.cur, phrase, 1)
             open(g) == Open(s, g)
             next == {g \in Groups(s.left) : CanOpen(s, g) /\ FindFrom(q, s.left[g], phrase, 1) # 0}
         IN (IF here # 0 THEN {Advance(s, here)} ELSE {})
            \cup {Advance(open(g), FindFrom(q, s.left[g], phrase, 1)) : g \in next}

\* May the search be complete?
AllSettled(s) == Settled(s.cur) /\ \A g \in Groups(s.left) : Settled(s.left[g])
AfterComplete(q, s) ==
    IF s.phase # "done" /\ (Full(q, s) \/ AllSettled(s)) THEN {[s EXCEPT !.phase = "done"]} ELSE {}
====
