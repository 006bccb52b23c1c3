---- MODULE BitSets ----
(***************************************************************************)
(* Bit sets of up to three dimensions.  A bit set of sizes d = <<x, y>>    *)
(* and n is a family of x * y independent sets of numbers below n, its     *)
(* cells; a view is the whole family, one of its rows (where d has two     *)
(* sizes), or one cell.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CellCount(d) == IF Len(d) = 0 THEN 1 ELSE IF Len(d) = 1 THEN d[1] ELSE d[1] * d[2]
Fresh(d, n) == [d |-> d, n |-> n, m |-> [c \in 1..CellCount(d) |-> {}]]

\* The cells of the view at: <<>> all, <<i>> the i-th row or cell, <<i, j>> a cell (counted from 0), in order
View(d, at) ==
    IF Len(at) = 0 THEN [k \in 1..CellCount(d) |-> k]
    ELSE IF Len(d) = 1 THEN <<at[1] + 1>>
    ELSE IF Len(at) = 1 THEN [k \in 1..d[2] |-> at[1] * d[2] + k]
    ELSE <<at[1] * d[2] + at[2] + 1>>
CellOf(s, at) == s.m[View(s.d, at)[1]]

\* s with F(k) for the contents of the k-th cell of the view
Put(s, at, F(_)) ==
    LET v == View(s.d, at) IN
    [s EXCEPT !.m = [c \in DOMAIN s.m |-> IF \E k \in 1..Len(v) : v[k] = c
                                          THEN F(CHOOSE k \in 1..Len(v) : v[k] = c) ELSE s.m[c]]]
\* What an operation does to set s at view at, given set t and its view bt, and number i
Operate(o, s, at, i, t, bt) ==
    LET mine(k) == s.m[View(s.d, at)[k]]
        theirs(k) == t.m[View(t.d, bt)[k]]
    IN CASE o = "insert" -> Put(s, at, LAMBDA k : mine(k) \cup {i})
         [] o = "remove" -> Put(s, at, LAMBDA k : mine(k) \ {i})
         [] o = "clear" -> Put(s, at, LAMBDA k : {})
         [] o = "union" -> Put(s, at, LAMBDA k : mine(k) \cup theirs(k))
         [] o = "difference" -> Put(s, at, LAMBDA k : mine(k) \ theirs(k))
         [] o = "intersect" -> Put(s, at, LAMBDA k : mine(k) \cap theirs(k))
         [] o = "copy" -> Put(s, at, LAMBDA k : theirs(k))
         \* a number stays only in the first cell of the row which has it
         [] o = "compact" -> Put(s, at, LAMBDA k : {x \in mine(k) : \A j \in 1..(k - 1) : x \notin mine(j)})
         [] OTHER -> s
\* What is put in another place
Derive(o, s, at, i) ==
    CASE o = "clone" -> s
      [] o = "row" -> [d |-> <<>>, n |-> s.n, m |-> <<CellOf(s, at)>>]
      [] o = "resize" -> [d |-> <<>>, n |-> i, m |-> <<CellOf(s, at)>>]
Derives == {"clone", "row", "resize"}

\* What an operation answers: a truth value
Holds(o, s, at, i, t, bt) ==
    LET v == View(s.d, at)
        w == View(t.d, bt)
    IN CASE o \in {"contains", "containsmut"} -> i \in CellOf(s, at)
         [] o \in {"empty", "emptyref"} -> \A k \in 1..Len(v) : s.m[v[k]] = {}
         [] o \in {"subset", "subsetref"} -> \A k \in 1..Len(v) : s.m[v[k]] \subseteq t.m[w[k]]
         [] o = "equal" -> s.m = t.m
Questions == {"contains", "containsmut", "empty", "emptyref", "subset", "subsetref", "equal"}

\* The members of a set, in order
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
RangeOf(q) == {q[i] : i \in 1..Len(q)}
\* Is q the set S, in order?
Lists(q, S) == RangeOf(q) = S /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
====
