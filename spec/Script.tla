---- MODULE Script ----
(***************************************************************************)
(* A query is a script: lines separated by newlines or semicolons, read    *)
(* one after another.  The reader is a state machine: its state is what    *)
(* was read so far, ReadLine is its only step.                             *)
(***************************************************************************)
EXTENDS Grammar, TLC, FiniteSets

IsBreak(c) == c = 10 \/ c = 59
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, from, breaks) ==
    IF breaks = {} THEN <<SubSeq(s, from, Len(s))>>
    ELSE LET b == CHOOSE x \in breaks : \A y \in breaks : x <= y
         IN <<SubSeq(s, from, b - 1)>> \o SplitFrom(s, b + 1, breaks \ {b})
Lines(s) == SplitFrom(s, 1, {i \in 1..Len(s) : IsBreak(s[i])})

\* Replace every occurrence of name in s, left to right
OccursAt(s, i, name) == i + Len(name) - 1 <= Len(s) /\ \A x \in 1..Len(name) : s[i + x - 1] = name[x]
RECURSIVE ReplaceFrom(_, _, _, _, _)
ReplaceFrom(s, i, places, name, value) ==
    LET next == {x \in places : x >= i} IN
    IF next = {} THEN SubSeq(s, i, Len(s))
    ELSE LET m == CHOOSE x \in next : \A y \in next : x <= y IN
         SubSeq(s, i, m - 1) \o value \o ReplaceFrom(s, m + Len(name), next, name, value)
Places(s, name) == {i \in 1..Len(s) : OccursAt(s, i, name)}

\* macros: a sequence of <<name, value>>, in the order their names were first defined
\* By how much a line gets longer
RECURSIVE CountFrom(_, _, _)
CountFrom(places, i, width) ==   \* those which do not overlap
    LET next == {x \in places : x >= i} IN
    IF next = {} THEN 0
    ELSE 1 + CountFrom(next, width + (CHOOSE x \in next : \A y \in next : x <= y), width)
Growth(places, name, value) ==
    LET g == ByteLength(value) - Len(name) IN
    IF g <= 0 \/ places = {} THEN 0 ELSE CountFrom(places, 1, Len(name)) * g
\* The line, or TooLong if it gets too long on the way
TooLong == <<-1>>
RECURSIVE SubstituteFrom(_, _, _)
SubstituteFrom(line, macros, k) ==
    IF k > Len(macros) THEN line
    ELSE LET name == macros[k][1]
             value == macros[k][2]
             places == TLCEval(Places(line, name))
         IN IF ByteLength(line) + Growth(places, name, value) > MaxLine THEN TooLong
            ELSE IF places = {} THEN SubstituteFrom(line, macros, k + 1)
            ELSE SubstituteFrom(TLCEval(ReplaceFrom(line, 1, places, name, value)), macros, k + 1)
Substitute(line, macros) == SubstituteFrom(line, macros, 1)

Define(macros, name, value) ==
    IF \E k \in 1..Len(macros) : macros[k][1] = name
    THEN [k \in 1..Len(macros) |-> IF macros[k][1] = name THEN <<name, value>> ELSE macros[k]]
    ELSE Append(macros, <<name, value>>)

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

RECURSIVE InsertWord(_, _)
InsertWord(list, w) ==   \* list is sorted
    IF list = <<>> THEN <<w>>
    ELSE IF WordCmp(w, list[1]) <= 0 THEN <<w>> \o list
    ELSE <<list[1]>> \o InsertWord(SubSeq(list, 2, Len(list)), w)

None == -1
Start == [n |-> 0, macros |-> <<>>, exprs |-> <<>>, words |-> None, limit |-> None,
          dict |-> <<>>, quiet |-> FALSE, haswl |-> FALSE, wl |-> <<>>, error |-> 0]

\* One line: the reader's step.  After an error, or below #wordlist, lines are not parsed.
ReadLine(st, raw) ==
    LET n == st.n + 1 IN
    IF st.haswl THEN
        LET w == Trim(raw) IN
        IF w = <<>> THEN [st EXCEPT !.n = n]
        ELSE [st EXCEPT !.n = n, !.wl = InsertWord(st.wl, [t |-> w, r |-> 1, s |-> st.n])]
    ELSE
        LET line == TLCEval(Substitute(raw, st.macros))
            m == IF line = TooLong THEN [kind |-> "error", v |-> 0] ELSE Line(line) IN
        CASE m.kind = "error" -> [st EXCEPT !.n = n, !.error = n]
          [] m.kind = "empty" -> [st EXCEPT !.n = n]
          [] m.kind = "expr" -> [st EXCEPT !.n = n, !.exprs = Append(st.exprs, m.v)]
          [] m.kind = "macro" -> [st EXCEPT !.n = n, !.macros = Define(st.macros, m.v[1], m.v[2])]
          [] m.kind = "words" -> [st EXCEPT !.n = n, !.words = m.v]
          [] m.kind = "limit" -> [st EXCEPT !.n = n, !.limit = m.v]
          [] m.kind = "dict" -> [st EXCEPT !.n = n, !.dict = m.v]
          [] m.kind = "quiet" -> [st EXCEPT !.n = n, !.quiet = TRUE]
          [] m.kind = "wordlist" -> [st EXCEPT !.n = n, !.haswl = TRUE]

RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, lines, i) ==
    IF i > Len(lines) \/ st.error # 0 THEN st ELSE ReadFrom(ReadLine(st, lines[i]), lines, i + 1)
Read(text) == ReadFrom(Start, Lines(text), 1)
====
