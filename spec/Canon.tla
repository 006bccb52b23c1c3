---- MODULE Canon ----
(***************************************************************************)
(* When two expressions are the same, however they are written.            *)
(***************************************************************************)
EXTENDS Grammar

\* The same expression, written differently: groups of one, sequences within sequences, {1} and {0},
\* alternatives within alternatives, the letters of an anagram in another order
Nothing == [k |-> "seq", t |-> <<>>]
RECURSIVE Canon(_), Flat(_, _, _)
\* The terms of ts from i on, those of kind k among them replaced by their own terms
Flat(ts, i, k) ==
    IF i > Len(ts) THEN <<>>
    ELSE LET c == Canon(ts[i]) IN (IF c.k = k THEN c.t ELSE <<c>>) \o Flat(ts, i + 1, k)
Single(k, ts) == IF Len(ts) = 1 THEN ts[1] ELSE [k |-> k, t |-> ts]
Occurs(b) == [c \in {b[i] : i \in 1..Len(b)} |-> Cardinality({i \in 1..Len(b) : b[i] = c})]
Canon(x) ==
    CASE x.k = "chr" -> x
      [] x.k = "seq" -> Single("seq", Flat(x.t, 1, "seq"))
      [] x.k = "alt" -> Single("alt", Flat(x.t, 1, "alt"))
      [] x.k = "sub" -> [k |-> "sub", t |-> [i \in 1..Len(x.t) |-> Canon(x.t[i])]]
      [] x.k = "rep" -> IF x.lo = 1 /\ x.hi = 1 THEN Canon(x.t[1])
                        ELSE IF x.lo = 0 /\ x.hi = 0 THEN Nothing
                        ELSE [x EXCEPT !.t = <<Canon(x.t[1])>>]
      \* no more letters can be deleted than there are
      [] x.k = "ana" -> [k |-> "ana", a |-> x.a, b |-> Occurs(x.b),
                         n |-> IF x.a = "delete" /\ x.n > Len(x.b) THEN Len(x.b) ELSE x.n]
====
