---- MODULE CliTrace ----
(***************************************************************************)
(* The command line tool: it loads a word list file, reads its query,      *)
(* evaluates it and prints the results.  A case is one run of it: the file *)
(* (bytes, whether it can be read), the query, the options count and       *)
(* length (-1: not given), and what was printed: the lines, and whether it *)
(* succeeded.                                                              *)
(***************************************************************************)
EXTENDS Evaluator, Json, IOUtils
Load == INSTANCE Loader WITH FirstTranche <- 10000

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid,
          phase,    \* "load", "read", "print"
          at,       \* the position in the file, and then the line printed
          st, list, \* the loader's state, and the words loaded
          q, s      \* the problem, and the evaluation
vars == <<cid, phase, at, st, list, q, s>>
Case == Cases[cid]
Reject(why) == PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(at) \o " " \o ToString(why)) /\ FALSE
Accept == PrintT("ACCEPT " \o ToString(Case.id)) /\ FALSE
Failed == ~Case.succeeded /\ Case.told /\ Case.lines = <<>>

RECURSIVE Insert(_, _)
Insert(ws, w) == IF ws = <<>> THEN <<w>>
                 ELSE IF Load!LoadedCmp(w, ws[1]) <= 0 THEN <<w>> \o ws ELSE <<ws[1]>> \o Insert(Tail(ws), w)

TraceInit == cid \in 1..Len(Cases) /\ phase = "load" /\ at = 1 /\ st = Load!Start /\ list = <<>> /\ q = <<>> /\ s = <<>>
LoadLine ==
    /\ phase = "load" /\ Case.readable /\ at <= Len(Case.bytes)
    /\ LET j == Load!NewlineFrom(Case.bytes, at)
           x == Load!ReadLine(st, Load!LineBytes(Case.bytes, at, j))
       IN /\ at' = j + 1 /\ st' = x
          /\ list' = IF x.word = <<>> THEN list ELSE Insert(list, x.word[1])
    /\ UNCHANGED <<cid, phase, q, s>>
\* The options go before what the query says
CountOption == IF Case.count = -1 THEN NoLimit ELSE Case.count
LengthOption == IF Case.length = -1 THEN 10 ELSE Case.length
ReadQuery ==
    /\ phase = "load" /\ ~(Case.readable /\ at <= Len(Case.bytes))
    /\ IF ~Case.readable THEN IF Failed THEN Accept ELSE Reject("the word list cannot be read")
       ELSE LET sc == TLCEval(Read(Case.query)) IN
            IF sc.error # 0 THEN IF Failed THEN Accept ELSE Reject("the query is no query")
            ELSE IF ~Case.succeeded THEN Reject("failed")
            ELSE LET p == TLCEval([Prepare(IF sc.haswl THEN sc.wl ELSE list, sc.exprs, LengthOption, CountOption) EXCEPT !.printed = TRUE]) IN
                 /\ q' = p /\ s' = TLCEval(Begin(p)) /\ phase' = "print" /\ at' = 1
    /\ UNCHANGED <<cid, st, list>>
PrintLine ==
    /\ phase = "print" /\ at <= Len(Case.lines)
    /\ LET next == AfterMatch(q, s, Case.lines[at]) IN
       IF next = {} THEN Reject(<<"unexpected line", Case.lines[at], IF s.cur = <<>> THEN 0 ELSE Printed(q, s.cur[1].p)>>)
       ELSE s' \in next
    /\ at' = at + 1
    /\ UNCHANGED <<cid, phase, st, list, q>>
Finish ==
    /\ phase = "print" /\ at > Len(Case.lines)
    /\ IF AfterComplete(q, s) = {} THEN Reject("ended early") ELSE Accept
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][LoadLine \/ ReadQuery \/ PrintLine \/ Finish]_vars
Sorted == Load!InOrder(list)
WithinCount == phase = "print" => (Unlimited(q) \/ s.count <= q.limit)
====
