---- MODULE GenLanguage ----
(***************************************************************************)
(* Enumerates expressions, with everything they match, for replay in the   *)
(* real code.  An expression is a number: the digits say how it is built   *)
(* from atoms, in levels; a level combines two expressions of the level    *)
(* below it.                                                               *)
(*                                                                         *)
(* On the way the specification is checked against itself:                 *)
(*   - the text of the expression is read (Grammar) as what was built      *)
(*   - the two definitions of matching (Language, Automaton) agree         *)
(***************************************************************************)
EXTENDS Canon, Automaton, Json, IOUtils

\* A case: [id, exprs, depth, words]; an expression: [level, n, m, o, fz]
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, at
vars == <<cid, at>>
Case == Cases[cid]

\* [t |-> text, x |-> expression]
Atoms == << [t |-> <<97>>, x |-> Chr({0})], [t |-> <<98>>, x |-> Chr({1})], [t |-> <<46>>, x |-> Chr(Letters)],
            [t |-> <<91, 94, 97, 93>>, x |-> Chr(Letters \ {0})], [t |-> <<95>>, x |-> Chr({WordEnd})],
            [t |-> <<91, 97, 39, 93>>, x |-> Chr({0, Punct})], [t |-> <<49>>, x |-> SeqOf(<<Rep(Chr(Letters), 1, 1), Chr({WordEnd})>>)] >>
Group(e) == <<40>> \o e.t \o <<41>>
Suffixes == << [t |-> <<63>>, lo |-> 0, hi |-> 1], [t |-> <<42>>, lo |-> 0, hi |-> NoBound], [t |-> <<43>>, lo |-> 1, hi |-> NoBound],
               [t |-> <<123, 50, 125>>, lo |-> 2, hi |-> 2], [t |-> <<123, 44, 50, 125>>, lo |-> 0, hi |-> 2],
               [t |-> <<123, 50, 44, 125>>, lo |-> 2, hi |-> NoBound] >>
\* One level: an operator and two operands
Combine(o, e, f) ==
    CASE o = 0 -> [t |-> Group(e) \o Group(f), x |-> SeqOf(<<e.x, f.x>>)]
      [] o = 1 -> [t |-> e.t \o <<124>> \o f.t, x |-> AltOf(<<e.x, f.x>>)]
      [] o = 2 -> [t |-> <<40>> \o Group(e) \o Group(f) \o <<58, 94, 41>>, x |-> SubOf(<<e.x, f.x>>)]
      [] o = 3 -> [t |-> <<40>> \o Group(e) \o Group(f) \o <<58, 45, 41>>, x |-> SeqOf(<<Rep(e.x, 0, 1), Rep(f.x, 0, 1)>>)]
      [] o = 4 -> [t |-> <<40>> \o Group(e) \o Group(f) \o <<58, 43, 41>>,
                   x |-> SeqOf(SupersetTerms(<<e.x, f.x>>, 1))]
      [] o >= 5 -> LET s == Suffixes[o - 4]
                       r == [t |-> Group(e) \o s.t, x |-> Rep(e.x, s.lo, s.hi)] IN
                   [t |-> Group(f) \o r.t, x |-> SeqOf(<<f.x, r.x>>)]
      \* (the last operator: a repetition alone is also built when f matches the empty text)
Operators == 5 + Len(Suffixes)
RECURSIVE Size(_)
Size(level) == IF level = 0 THEN Len(Atoms) ELSE Operators * Size(level - 1) * Size(level - 1)
RECURSIVE Build(_, _)
Build(level, n) ==    \* n in 0..Size(level)-1
    IF level = 0 THEN Atoms[n + 1]
    ELSE LET z == Size(level - 1)
             o == n % Operators
             m == n \div Operators
         IN Combine(o, Build(level - 1, m % z), Build(level - 1, m \div z))
\* Level 3 does not fit in one number: it combines two expressions of level 2
The(c) == IF c.level < 3 THEN Build(c.level, c.n) ELSE Combine(c.o, Build(2, c.n), Build(2, c.m))

\* The phrases of d words, as sequences of indices
Phrases(ws, d) == [1..d -> 1..Len(ws)]
RECURSIVE SpelledFrom(_, _, _)
SpelledFrom(norms, p, i) == IF i > Len(p) THEN <<>> ELSE norms[p[i]] \o SpelledFrom(norms, p, i + 1)

\* What was wrong about the expression, or what it matches among the phrases
Judged(c, i) ==
    LET e == The(c.exprs[i])
        w == Written(e.t)
        x == [w.v EXCEPT !.fz = c.exprs[i].fz]
        norms == TLCEval([j \in 1..Len(c.words) |-> Normalise(c.words[j])])
        M == Machine(x.ast, x.fz)
        all == UNION {Phrases(c.words, d) : d \in 1..c.depth}
        visible(p) == Visible(x, SpelledFrom(norms, p, 1))
        matched == {p \in all : MatchesText(x.ast, x.fz, visible(p))}
        read == {p \in all : AcceptsText(M, visible(p))}
    IN IF ~w.ok THEN [why |-> <<"not read", e>>, t |-> e.t, m |-> {}]
       ELSE IF Canon(w.v.ast) # Canon(e.x) THEN [why |-> <<"read as", e, w.v>>, t |-> e.t, m |-> {}]
       ELSE IF matched # read THEN [why |-> <<"definitions disagree", e, matched, read>>, t |-> e.t, m |-> {}]
       ELSE [why |-> <<>>, t |-> e.t, m |-> matched]

Answer(c) ==
    LET js == TLCEval([i \in 1..Len(c.exprs) |-> Judged(c, i)])
        wrong == {i \in 1..Len(js) : js[i].why # <<>>}
    IN IF wrong # {} THEN "WRONG " \o ToString({js[i].why : i \in wrong})
       ELSE "OUT " \o ToString(c.id) \o " " \o ToString([i \in 1..Len(js) |-> js[i].t]) \o " "
            \o ToString({p \in js[1].m : \A i \in 1..Len(js) : p \in js[i].m})

Init == cid \in 1..Len(Cases) /\ at = 0
Next == at = 0 /\ at' = 1 /\ UNCHANGED cid /\ PrintT(Answer(Case))
Spec == Init /\ [][Next]_vars
====
