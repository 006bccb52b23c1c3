---- MODULE Automaton ----
(***************************************************************************)
(* What an expression matches, a second time: as a machine which reads a   *)
(* text character by character.  It is the position automaton of the       *)
(* expression, followed by word ends: its states are the places where a    *)
(* character class occurs in the (expanded) expression, 0 is the start.    *)
(* MCAutomaton checks it against Language.  It only covers expressions     *)
(* without anagrams; those are relaxed first (Language!RelaxAll).          *)
(***************************************************************************)
EXTENDS Language

\* A fragment: n: number of the last position, follow: pairs of positions, cls: classes of its positions
Unit(k) == [n |-> k, first |-> {}, last |-> {}, null |-> TRUE, follow |-> {}, cls |-> <<>>]
Cat(A, B) == [n |-> B.n,
              first |-> A.first \cup (IF A.null THEN B.first ELSE {}),
              last |-> B.last \cup (IF B.null THEN A.last ELSE {}),
              null |-> A.null /\ B.null,
              follow |-> A.follow \cup B.follow \cup (A.last \X B.first),
              cls |-> A.cls \o B.cls]
Either(A, B) == [n |-> B.n, first |-> A.first \cup B.first, last |-> A.last \cup B.last,
                 null |-> A.null \/ B.null, follow |-> A.follow \cup B.follow, cls |-> A.cls \o B.cls]
Maybe(A) == [A EXCEPT !.null = TRUE]
Loop(A) == [A EXCEPT !.null = TRUE, !.follow = @ \cup (A.last \X A.first)]

RECURSIVE Compile(_, _), CompileSeq(_, _, _), CompileAlt(_, _, _), CompileTimes(_, _, _, _), CompileRun(_, _, _), CompileSub(_, _, _)
CompileSeq(ts, i, A) ==   \* A followed by the terms i, i+1, ...
    IF i > Len(ts) THEN A ELSE CompileSeq(ts, i + 1, TLCEval(Cat(A, Compile(ts[i], A.n))))
CompileAlt(ts, i, A) ==
    IF i > Len(ts) THEN A ELSE CompileAlt(ts, i + 1, TLCEval(Either(A, Compile(ts[i], A.n))))
CompileTimes(x, n, opt, A) ==
    IF n = 0 THEN A
    ELSE LET B == Compile(x, A.n) IN CompileTimes(x, n - 1, opt, TLCEval(Cat(A, IF opt THEN Maybe(B) ELSE B)))
CompileRun(ts, i, k) ==   \* terms i, i+1, ... up to anywhere
    IF i > Len(ts) THEN Unit(k)
    ELSE LET A == Compile(ts[i], k) IN Maybe(Cat(A, CompileRun(ts, i + 1, A.n)))
CompileSub(ts, i, A) ==
    IF i > Len(ts) THEN A ELSE CompileSub(ts, i + 1, TLCEval(Either(A, CompileRun(ts, i, A.n))))

Compile(x, k) ==
    CASE x.k = "chr" -> [n |-> k + 1, first |-> {k + 1}, last |-> {k + 1}, null |-> FALSE,
                         follow |-> {}, cls |-> <<x.s>>]
      [] x.k = "seq" -> CompileSeq(x.t, 1, Unit(k))
      [] x.k = "alt" -> CompileAlt(x.t, 2, Compile(x.t[1], k))
      [] x.k = "sub" -> CompileSub(x.t, 1, Unit(k))
      [] x.k = "rep" ->
           LET A == CompileTimes(x.t[1], x.lo, FALSE, Unit(k)) IN
           IF x.hi = NoBound THEN Cat(A, Loop(Compile(x.t[1], A.n)))
           ELSE CompileTimes(x.t[1], x.hi - x.lo, TRUE, A)

Machine(ast, fz) ==
    LET A == TLCEval(Compile(SeqOf(<<ast, Trailing>>), 0))
        follow == TLCEval([p \in 0..A.n |-> IF p = 0 THEN A.first ELSE {f[2] : f \in {g \in A.follow : g[1] = p}}])
    IN TLCEval([n |-> A.n, fz |-> fz, cls |-> A.cls, follow |-> follow,
                editable |-> {p \in 1..A.n : A.cls[p] \cap Letters # {}},
                accept |-> A.last \cup (IF A.null THEN {0} ELSE {})])

--------------------------------------------------------------------------
\* A state vector: V[c+1] is the set of states reachable with c edits
FollowOf(M, P) == UNION {M.follow[p] : p \in P}
RECURSIVE AddFrom(_, _, _)
AddFrom(M, V, c) ==   \* letters the text lacks
    IF c > Len(V) THEN V
    ELSE AddFrom(M, [V EXCEPT ![c] = @ \cup (FollowOf(M, V[c - 1]) \cap M.editable)], c + 1)
Added(M, V) == IF Len(V) = 1 THEN V ELSE TLCEval(AddFrom(M, V, 2))

Initial(M) == Added(M, [c \in 1..(M.fz + 1) |-> IF c = 1 THEN {0} ELSE {}])
Read1(M, V, x) ==
    Added(M, TLCEval([c \in 1..Len(V) |->
        LET exact == {q \in FollowOf(M, V[c]) : x \in M.cls[q]} IN
        IF c = 1 THEN exact ELSE exact \cup V[c - 1] \cup (FollowOf(M, V[c - 1]) \cap M.editable)]))
RECURSIVE ReadText(_, _, _, _)
ReadText(M, V, t, i) == IF i > Len(t) THEN V ELSE ReadText(M, Read1(M, V, t[i]), t, i + 1)

Accepts(M, V) == \E c \in 1..Len(V) : V[c] \cap M.accept # {}
Viable(V) == \E c \in 1..Len(V) : V[c] # {}
AcceptsText(M, t) == Accepts(M, ReadText(M, Initial(M), t, 1))
====
