---- MODULE ScriptTrace ----
(***************************************************************************)
(* Checks what the code read from query texts and from expressions against *)
(* Script and Grammar.  A case is a text and what the code made of it.     *)
(* The text which the code shows for an expression is read again, by the   *)
(* specification, and must be the expression that was written.             *)
(***************************************************************************)
EXTENDS Script, Canon, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, l, st
vars == <<cid, l, st>>
Case == Cases[cid]
Verdict(why) == IF why = <<>> THEN PrintT("ACCEPT " \o ToString(Case.id))
                ELSE PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(l) \o " " \o ToString(why))

--------------------------------------------------------------------------
RECURSIVE Anagrams(_)
Anagrams(x) == CASE x.k = "chr" -> FALSE [] x.k = "ana" -> TRUE [] OTHER -> \E i \in 1..Len(x.t) : Anagrams(x.t[i])

\* Is the expression shown as [t |-> text, wb, pu, fz] the expression e?
\* (Groups are nested more deeply in what is shown; the bounds are for what is written.)
Shown(g, e) ==
    LET r == Written(g.t) IN
    /\ r.ok
    /\ Canon(r.v.ast) = Canon(e.ast)
    /\ g.wb = e.wb /\ g.pu = e.pu /\ g.fz = e.fz
    \* and its options are those of the text
    /\ r.v.wb = e.wb /\ r.v.pu = e.pu /\ r.v.fz = e.fz

\* Are the expressions from i on shown, in order, among those from j on?
RECURSIVE Within(_, _, _, _)
Within(es, i, gs, j) ==
    IF i > Len(es) THEN TRUE
    ELSE IF Anagrams(es[i].ast) THEN Within(es, i + 1, gs, j)
    ELSE IF j > Len(gs) THEN FALSE
    ELSE IF Shown(gs[j], es[i]) THEN Within(es, i + 1, gs, j + 1)
    ELSE Within(es, i, gs, j + 1)

--------------------------------------------------------------------------
\* A query
ReadQuery ==
    LET s == st
        c == Case
        g == Case.got
        exprsOk == IF \E e \in 1..Len(s.exprs) : Anagrams(s.exprs[e].ast)
                   THEN Len(g.exprs) >= Len(s.exprs) /\ Within(s.exprs, 1, g.exprs, 1)
                   ELSE Len(g.exprs) = Len(s.exprs) /\ \A e \in 1..Len(s.exprs) : Shown(g.exprs[e], s.exprs[e])
        same(a, b) == a.t = b.t /\ a.r = b.r /\ a.s = b.s /\ b.c = Normalise(a.t)
    IN IF c.rejected # (s.error # 0) THEN <<IF c.rejected THEN "refused" ELSE "not refused", "error at line", s.error>>
       ELSE IF c.rejected THEN IF c.line = s.error THEN <<>> ELSE <<"line at fault", s.error, c.line>>
       ELSE IF ~exprsOk THEN <<"expressions", s.exprs, g.exprs>>
       ELSE IF g.words # s.words \/ g.limit # s.limit THEN <<"numbers", s.words, s.limit, g.words, g.limit>>
       ELSE IF g.hasdict # (s.dict # <<>>) \/ (g.hasdict /\ g.dict # s.dict) THEN <<"dictionary", s.dict, g.dict>>
       ELSE IF g.quiet # s.quiet THEN <<"quiet">>
       ELSE IF g.haswl # s.haswl THEN <<"wordlist">>
       ELSE IF Len(g.wl) # Len(s.wl) THEN <<"wordlist", s.wl>>
       ELSE IF \E i \in 1..Len(s.wl) : ~same(s.wl[i], g.wl[i]) THEN <<"wordlist", s.wl, g.wl>>
       ELSE <<>>

\* A single expression
ReadExpression ==
    LET r == Expression(Case.query) IN
    IF Case.rejected # ~r.ok THEN <<IF Case.rejected THEN "refused" ELSE "not refused">>
    ELSE IF Case.rejected THEN <<>>
    ELSE IF ~Shown(Case.got, r.v) THEN <<"shown as", Case.got.t>> ELSE <<>>

\* The reader, one line at a time
Source == Lines(Case.query)
TraceInit == cid \in 1..Len(Cases) /\ l = 0 /\ st = Start
Reading == Case.kind = "query" /\ l < Len(Source) /\ st.error = 0
ReadOne == Reading /\ l' = l + 1 /\ st' = TLCEval(ReadLine(st, Source[l + 1])) /\ cid' = cid
Judge == ~Reading /\ Verdict(IF Case.kind = "query" THEN ReadQuery ELSE ReadExpression) /\ FALSE /\ UNCHANGED vars
TraceNext == ReadOne \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == st.n = l
====
