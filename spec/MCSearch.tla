---- MODULE MCSearch ----
(***************************************************************************)
(* How the search for phrases is made (iterative deepening, group by       *)
(* group, in the order of a queue), checked against what it is for         *)
(* (Evaluator).  The problem is abstract: a list of words in tranches,     *)
(* which sequences of words can be continued to a match (alive), and which *)
(* are matches; all of these are tried.                                    *)
(*                                                                         *)
(*   queue    the groups still to be searched: [d, t, z]                   *)
(*   idx      the word at each layer; its length is the current layer      *)
(*   top      the highest tranche up to each layer                         *)
(*   partial  was any phrase of the group's length alive?                  *)
(*   watch    the states in which Evaluator may be, given what was answered*)
(***************************************************************************)
EXTENDS Evaluator

CONSTANTS NWords, Depth, Tranches, Limits, AllQueues, AllTrees
VARIABLES pb, phase, queue, idx, top, partial, count, watch
vars == <<pb, phase, queue, idx, top, partial, count, watch>>

Sequences(n) == UNION {[1..d -> 1..NWords] : d \in 1..n}
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]

\* Every problem: a tree of live sequences, some of which are matches
RECURSIVE Trees(_)
\* (sets of <<live, matches>> below a sequence, for n more words)
Below(n) == IF n = 0 THEN {<<{}, {}>>} ELSE Trees(n)
Extend(w, b) == <<{<<w>>} \cup {<<w>> \o p : p \in b[1]}, {<<w>> \o p : p \in b[2]}>>
Child(n, w) == {<<{}, {}>>} \cup UNION {{Extend(w, b), <<Extend(w, b)[1], Extend(w, b)[2] \cup {<<w>>}>>} : b \in Below(n - 1)}
RECURSIVE Join(_, _)
Join(n, w) == IF w > NWords THEN {<<{}, {}>>}
              ELSE {<<a[1] \cup b[1], a[2] \cup b[2]>> : a \in Child(n, w), b \in Join(n, w + 1)}
Trees(n) == Join(n, 1)

\* Fewer: every set of matches of two or more words; what is alive is what it has to be, and perhaps all short ones, or all
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}
Long == {p \in Sequences(Depth) : Len(p) >= 2}
FewerTrees == {<<L \cup UNION {Prefixes(p) : p \in M}, M>> : M \in SUBSET Long, L \in {{}, Sequences(Depth - 1), Sequences(Depth)}}
Problems == IF AllTrees THEN Trees(Depth) ELSE FewerTrees

Lists == {r \in [1..NWords -> Tranches] : \A i \in 1..(NWords - 1) : r[i] <= r[i + 1]}
WordsOf(r) == [i \in 1..NWords |-> [t |-> <<i>>, r |-> r[i], s |-> 0]]

\* The queue: every group, those with fewer phrases first
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
UpTo(r, t) == Cardinality({i \in 1..NWords : r[i] <= t})
RECURSIVE SortedQueue(_)
Sooner(g, h) == g.z < h.z \/ (g.z = h.z /\ (g.d < h.d \/ (g.d = h.d /\ g.t < h.t)))
SortedQueue(S) == IF S = {} THEN <<>>
                  ELSE LET g == CHOOSE x \in S : \A y \in S : y = x \/ Sooner(x, y) IN <<g>> \o SortedQueue(S \ {g})
TrancheOf(r, p) == MaxOf({r[p[i]] : i \in 1..Len(p)})

Init ==
    \E r \in Lists, tree \in Problems, limit \in Limits :
    LET used == {r[i] : i \in 1..NWords}
        groups == {[d |-> d, t |-> t, z |-> Power(UpTo(r, t), d)] : d \in 2..Depth, t \in used}
        \* groups without any match may be known beforehand
        empty == {g \in groups : ~\E p \in tree[2] : Len(p) = g.d /\ TrancheOf(r, p) = g.t}
        ofGroup(g) == {p \in tree[2] : Len(p) = g[1] /\ TrancheOf(r, p) = g[2]}
        inOrder(S) == LET RECURSIVE F(_)
                          F(T) == IF T = {} THEN <<>>
                                  ELSE LET p == CHOOSE x \in T : \A y \in T : Cmp(x, y) <= 0 IN <<p>> \o F(T \ {p})
                      IN F(S)
        keys == {g \in {<<h.d, h.t>> : h \in groups} : ofGroup(g) # {}}
    IN \E dropped \in (IF AllQueues THEN SUBSET empty ELSE {{}, empty}) :
       /\ groups \ dropped # {}
       /\ pb = [q |-> [words |-> WordsOf(r), printed |-> FALSE, limit |-> limit], r |-> r, live |-> tree[1], match |-> tree[2]]
       /\ queue = SortedQueue(groups \ dropped)
       /\ watch = {[phase |-> "words", cur |-> <<>>, count |-> 0,
                    left |-> [g \in keys |-> [i \in 1..Cardinality(ofGroup(g)) |-> [p |-> inOrder(ofGroup(g))[i], must |-> TRUE]]]]}
       /\ phase = "search" /\ idx = <<1>> /\ top = <<r[1]>> /\ partial = FALSE /\ count = 0

\* The next word at the last layer, or at one before it
RECURSIVE Advanced(_, _, _)
Advanced(ix, tp, t) ==
    LET n == Len(ix)
        w == Last(ix) + 1
    IN IF w > NWords \/ (w <= NWords /\ pb.r[IF w > NWords THEN 1 ELSE w] > t)
       THEN IF n = 1 THEN [over |-> TRUE, ix |-> <<>>, tp |-> <<>>] ELSE Advanced(Front(ix), Front(tp), t)
       ELSE [over |-> FALSE, ix |-> Append(Front(ix), w), tp |-> Append(Front(tp), Max(Last(tp), pb.r[w]))]

Limited == pb.q.limit # NoLimit /\ count >= pb.q.limit

\* Look at one sequence of words
Look ==
    /\ phase = "search" /\ queue # <<>> /\ ~Limited
    /\ LET g == queue[1]
           live == idx \in pb.live
           exact == idx \in pb.match
           atDepth == Len(idx) = g.d
           answer == exact /\ atDepth /\ Last(top) = g.t
           part == partial \/ (live /\ atDepth)
           a == Advanced(idx, top, g.t)
           rest == IF part THEN Tail(queue)
                   ELSE SelectSeq(Tail(queue), LAMBDA h : h.t > g.t \/ h.d < g.d)
       IN /\ count' = IF answer THEN count + 1 ELSE count
          /\ watch' = IF answer THEN UNION {AfterMatch(pb.q, s, [i \in 1..Len(idx) |-> pb.q.words[idx[i]]]) : s \in watch} ELSE watch
          /\ IF live /\ Len(idx) < g.d
             THEN /\ idx' = Append(idx, 1) /\ top' = Append(top, Last(top))
                  /\ partial' = part /\ UNCHANGED <<queue, phase>>
             ELSE IF ~a.over
             THEN idx' = a.ix /\ top' = a.tp /\ partial' = part /\ UNCHANGED <<queue, phase>>
             ELSE /\ queue' = rest /\ idx' = <<1>> /\ top' = <<pb.r[1]>> /\ partial' = FALSE
                  /\ UNCHANGED phase
          /\ UNCHANGED pb
Complete ==
    /\ phase = "search" /\ (queue = <<>> \/ Limited)
    /\ phase' = "done"
    /\ watch' = UNION {AfterComplete(pb.q, s) : s \in watch}
    /\ UNCHANGED <<pb, queue, idx, top, partial, count>>
Next == Look \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What is answered is what Evaluator allows
Refines == watch # {}
\* The layers are where they should be
TypeOk == /\ Len(idx) = Len(top) /\ Len(idx) \in 1..Depth
          /\ \A i \in 1..Len(idx) : top[i] = TrancheOf(pb.r, SubSeq(idx, 1, i))
          /\ \A i \in 1..(Len(queue) - 1) : Sooner(queue[i], queue[i + 1])
Completes == <>(phase = "done")
====
