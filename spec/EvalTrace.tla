---- MODULE EvalTrace ----
(***************************************************************************)
(* Checks recorded evaluations against Evaluator.  Every line of           *)
(* cases.ndjson is one evaluation of the real code: its problem (the query *)
(* as text, the word list), and the responses it gave.                     *)
(*                                                                         *)
(* A case is checked under one view of the machine:                        *)
(*   "full"     the machine as it is                                       *)
(*   "content"  which results come, not in what order                      *)
(*   "order"    the order in which they come, not which                    *)
(*   "stream"   against another evaluation of the same problem (ref) which *)
(*              was not limited or interrupted: exactly its results        *)
(*   "prompt"   how much is examined by calls whose deadline has passed    *)
(*   "filter"   as stream, but in any order, and only those of at most     *)
(*              depth words                                                *)
(*   "life"     whatever its results are, that it goes on to completion:   *)
(*              phrases of words of the list, no more than there may be    *)
(***************************************************************************)
EXTENDS Evaluator, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, l, q, s
vars == <<cid, l, q, s>>
TraceView == <<cid, l, IF l = 0 THEN 0 ELSE <<s.count, Len(s.cur), DOMAIN s.left>>>>

Case == Cases[cid]
Events == Case.events
Script == Read(Case.query)

Reject(why) == PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(l) \o " " \o ToString(why)) /\ FALSE
Accept == PrintT("ACCEPT " \o ToString(Case.id)) /\ FALSE

RECURSIVE SortedFrom(_, _)
SortedFrom(ws, i) == IF i >= Len(ws) THEN TRUE ELSE WordCmp(ws[i], ws[i + 1]) <= 0 /\ SortedFrom(ws, i + 1)

--------------------------------------------------------------------------
\* The problem of a case.  Numbers set through the API go before those in the query, those before defaults.
Depth(sc) == IF Case.setdepth # -1 THEN Case.setdepth ELSE IF sc.words # None THEN sc.words ELSE 10
Limit(sc) == IF Case.setlimit # -1 THEN Case.setlimit
             ELSE IF sc.limit = Huge THEN NoLimit ELSE IF sc.limit # None THEN sc.limit ELSE 300
Words(sc) == IF sc.haswl THEN sc.wl ELSE Case.words

Plain(sc) == [words |-> Words(sc), depth |-> Depth(sc), limit |-> Limit(sc)]
\* (the words of the list, with the characters they should have)
WithWords(p) == [depth |-> p.depth, limit |-> p.limit,
                 known |-> {[t |-> w.t, r |-> w.r, s |-> w.s, c |-> Normalise(w.t)] : w \in {p.words[i] : i \in 1..Len(p.words)}}]
AsRef(p) == [p |-> p, must |-> TRUE]   \* p: the words themselves

Problem(sc) ==
    IF Case.mode \in {"full", "content", "prompt"} THEN Prepare(Words(sc), sc.exprs, Depth(sc), Limit(sc))
    ELSE IF Case.mode = "life" THEN WithWords(Plain(sc))
    ELSE Plain(sc)
NoGroups == <<>>
RECURSIVE AllGroups(_, _)
AllGroups(f, gs) == IF gs = {} THEN <<>> ELSE LET g == CHOOSE x \in gs : TRUE IN f[g] \o AllGroups(f, gs \ {g})
Flatten(st) == [st EXCEPT !.cur = st.cur \o AllGroups(st.left, DOMAIN st.left), !.left = NoGroups]

Initially(sc, p) ==
    CASE Case.mode = "full" -> Begin(p)
      [] Case.mode = "content" -> Flatten(Begin(p))
      [] Case.mode = "prompt" -> [phase |-> "words", cur |-> Singles(p), left |-> NoGroups, count |-> 0, budget |-> 0]
      [] Case.mode = "order" -> [phase |-> "words", cur |-> <<>>, left |-> NoGroups, count |-> 0, last |-> <<>>, seen |-> {}]
      [] Case.mode = "life" -> [phase |-> "words", cur |-> <<>>, left |-> NoGroups, count |-> 0]
      [] Case.mode = "stream" ->
           [phase |-> "words", cur |-> [i \in 1..Len(Case.ref) |-> AsRef(Case.ref[i])], left |-> NoGroups, count |-> 0]
      [] Case.mode = "filter" ->
           [phase |-> "words", left |-> NoGroups, count |-> 0,
            cur |-> LET d == IF p.depth < 1 THEN 1 ELSE p.depth
                        short == SelectSeq(Case.ref, LAMBDA r : Len(r) <= d)
                    IN [i \in 1..Len(short) |-> AsRef(short[i])]]

TraceInit == cid \in 1..Len(Cases) /\ l = 0 /\ q = <<>> /\ s = <<>>

Load ==
    /\ l = 0
    /\ LET sc == TLCEval(Script) IN
       IF Case.rejected # (sc.error # 0)
       THEN Reject(IF Case.rejected THEN "the query was refused" ELSE "the query was not refused")
       ELSE IF Case.rejected THEN Accept
       ELSE IF ~SortedFrom(Case.words, 1) THEN Reject("input not sorted")
       ELSE LET p == TLCEval(Problem(sc)) IN
            /\ q' = p /\ s' = TLCEval(Initially(sc, p)) /\ l' = 1 /\ cid' = cid

--------------------------------------------------------------------------
\* The views' versions of AfterMatch and AfterComplete
SameWords(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].t = b[i].t /\ a[i].r = b[i].r /\ a[i].s = b[i].s
RECURSIVE FindAny(_, _, _)
FindAny(cs, phrase, i) ==
    IF i > Len(cs) THEN 0
    ELSE IF (IF Case.mode = "content" THEN Spells(q, cs[i].p, phrase) ELSE SameWords(cs[i].p, phrase)) THEN i
    ELSE FindAny(cs, phrase, i + 1)
RemoveAt(cs, i) == SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, Len(cs))

IndexOf(w) == LET I == {i \in 1..Len(q.words) : q.words[i].t = w.t /\ q.words[i].r = w.r /\ q.words[i].s = w.s}
              IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
OrderMatch(phrase) ==
    LET p == [i \in 1..Len(phrase) |-> IndexOf(phrase[i])]
        known == \A i \in 1..Len(p) : p[i] # 0
        g == <<Len(p), IF Len(p) = 1 THEN 0 ELSE PhraseTranche(q, p)>>
        fits == IF s.last = <<>> THEN TRUE
                ELSE IF g = s.last[1] THEN Cmp(s.last[2], p) < 0
                ELSE g \notin s.seen /\ ~(\E h \in s.seen : Before(g, h))
                     /\ (Len(p) = 1 => \A k \in s.seen : k[1] = 1)
    IN IF p # <<>> /\ known /\ fits /\ ~Full(q, s)
       THEN {[s EXCEPT !.last = <<g, p>>, !.seen = @ \cup {g}, !.count = @ + 1]} ELSE {}

LifeMatch(phrase) ==
    IF /\ Len(phrase) >= 1 /\ Len(phrase) <= IF q.depth < 1 THEN 1 ELSE q.depth
       /\ \A i \in 1..Len(phrase) : phrase[i] \in q.known
       /\ ~Full(q, s)
    THEN {[s EXCEPT !.count = @ + 1]} ELSE {}

\* A call whose deadline has passed examines no more than Slice words, or beginnings of phrases.
\* budget: how many may have been examined by the calls so far.  (Used for problems without
\* matching phrases, in which no call before these has a deadline ahead.)
Slice == 1024
PromptMatch(phrase) ==
    LET i == FindFrom(q, s.cur, phrase, 1)
        spent == s.budget + (IF Events[l].d = "p" THEN Slice ELSE 1000000)
    IN IF Len(phrase) # 1 \/ i = 0 THEN {}
       ELSE IF s.cur[i].p[1] > spent THEN {}
       ELSE {[Advance(s, i) EXCEPT !.budget = spent]}
\* The words which may begin a phrase, each tried with every word
Viable1(i) == \A e \in 1..Len(q.machines) : Viable(ReadText(q.machines[e], Initial(q.machines[e]), q.visible[e][i], 1))
Tries == Cardinality({i \in 1..Len(q.words) : Viable1(i)}) * Len(q.words)
PromptComplete ==
    IF ~Settled(s.cur) THEN {}
    ELSE IF q.depth = 2 /\ Events[l].d = "p" /\ s.budget + Slice < Tries THEN {}
    ELSE {[s EXCEPT !.phase = "done"]}

ViewMatch(phrase) ==
    CASE Case.mode = "full" -> AfterMatch(q, s, phrase)
      [] Case.mode \in {"content", "filter"} ->
           LET i == FindAny(s.cur, phrase, 1) IN
           IF i = 0 \/ Full(q, s) THEN {} ELSE {[s EXCEPT !.cur = RemoveAt(s.cur, i), !.count = @ + 1]}
      [] Case.mode = "stream" ->
           IF s.cur # <<>> /\ ~Full(q, s) /\ SameWords(s.cur[1].p, phrase) THEN {Advance(s, 1)} ELSE {}
      [] Case.mode = "order" -> OrderMatch(phrase)
      [] Case.mode = "life" -> LifeMatch(phrase)
      [] Case.mode = "prompt" -> PromptMatch(phrase)

\* A response was given under a deadline or not
Timed(e) == e.d # "n"
WellSpelled(w) == w.c = Normalise(w.t)

Match ==
    /\ Events[l].k = "M"
    /\ LET next == ViewMatch(Events[l].w) IN
       IF Case.mode \in {"full", "content"} /\ ~\A i \in 1..Len(Events[l].w) : WellSpelled(Events[l].w[i])
       THEN Reject("wrong characters for a word")
       ELSE IF next = {} THEN Reject(<<"unexpected match", Events[l].w, IF s.cur = <<>> THEN 0 ELSE s.cur[1]>>)
       ELSE s' \in next
    /\ l' = l + 1 /\ UNCHANGED <<cid, q>>
\* A timeout is only given under a deadline, and changes nothing
Timeout ==
    /\ Events[l].k = "T"
    /\ IF Timed(Events[l]) THEN TRUE ELSE Reject("timeout without a deadline")
    /\ s' = IF Case.mode = "prompt" /\ Events[l].d = "p" THEN [s EXCEPT !.budget = @ + Slice * Events[l].n] ELSE s
    /\ l' = l + 1 /\ UNCHANGED <<cid, q>>
\* (the first phrases are tried after it)
Logs ==
    /\ Events[l].k = "L"
    /\ s' = IF Case.mode = "prompt" THEN [s EXCEPT !.budget = 0] ELSE s
    /\ l' = l + 1 /\ UNCHANGED <<cid, q>>
Complete ==
    /\ Events[l].k = "C"
    /\ LET next == IF Case.mode = "prompt" THEN PromptComplete ELSE AfterComplete(q, s) IN
       IF next = {} THEN Reject(<<"completed early, missing", IF Settled(s.cur) THEN s.left ELSE SelectSeq(s.cur, LAMBDA c : c.must)[1]>>)
       ELSE s' \in next
    /\ l' = l + 1 /\ UNCHANGED <<cid, q>>
\* Once complete, it stays so: "C" again for every call, no more items from the iterator ("N")
Over ==
    /\ Events[l].k \in {"AC", "AN"} /\ s.phase = "done"
    /\ l' = l + 1 /\ UNCHANGED <<cid, q, s>>

Step ==
    /\ l > 0 /\ l <= Len(Events)
    /\ IF s.phase = "done" THEN
          IF Events[l].k \in {"AC", "AN"} THEN Over ELSE Reject("response after completion")
       ELSE IF Events[l].k \in {"M", "T", "L", "C"} THEN Match \/ Timeout \/ Logs \/ Complete
       ELSE Reject(<<"unexpected event", Events[l].k>>)

Finish ==
    /\ l > 0 /\ l = Len(Events) + 1
    /\ IF s.phase = "done" \/ Case.cut THEN Accept
       ELSE Reject("never completed")

TraceNext == Load \/ Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* Invariants evaluated in every state of every recorded evaluation
WithinLimit == l > 0 => (Unlimited(q) \/ s.count <= q.limit)
====
