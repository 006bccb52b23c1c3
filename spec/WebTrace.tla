---- MODULE WebTrace ----
(***************************************************************************)
(* Checks recorded histories of the running web service against Web.       *)
(* A case is what clients did and saw between two moments of rest, in the  *)
(* order in which they did and saw it.  What the service does unseen is    *)
(* found by TLC.                                                           *)
(*                                                                         *)
(* Events [k, c, at (ms)]:                                                 *)
(*   open, leave                                                           *)
(*   ask     via, kind, query, error, refs: for each word list what an     *)
(*           evaluation answers when it is not limited                     *)
(*   begun   n: how many others the service says are active                *)
(*   part    results received through a websocket                          *)
(*   told    text received through a websocket                             *)
(*   answer  status, lines of an HTTP answer                               *)
(*   end     the end of the answer                                         *)
(*   metrics active, total, sizes of word lists                            *)
(*   settled as metrics, when all have their answers or have gone          *)
(*   list    name, texts of a word list                                    *)
(*   dead    something that was waited for did not come                    *)
(***************************************************************************)
EXTENDS Script, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxClients == 12
AllClients == 1..MaxClients

VARIABLES cid, l, asked, told, known,   \* known: the clients which were told how many others there are
          next,   \* the client whose query begins next, or 0
          phase, job, run, made, got, others, active, total
W == INSTANCE Web WITH Clients <- AllClients
tvars == <<cid, l, asked, told, known, next, phase, job, run, made, got, others, active, total>>
Case == Cases[cid]
Events == Case.events
Ev == Events[l]
Reject(why) == PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(l) \o " " \o ToString(why)) /\ FALSE
Accept == PrintT("ACCEPT " \o ToString(Case.id)) /\ FALSE
Check(ok, why) == IF ok THEN TRUE ELSE Reject(why)

\* How long a query may run
Allowed(via) == IF via = "get" THEN 9900 ELSE 149000
IsExpired(c) == Ev.at - asked[c] >= Allowed(job[c].via)

--------------------------------------------------------------------------
\* The query, from what was asked
DefaultName == <<100, 101, 102, 97, 117, 108, 116>>
HasList(e, name) == \E i \in 1..Len(e.refs) : e.refs[i].name = name
ListNamed(e, name) == LET n == IF HasList(e, name) THEN name ELSE DefaultName
                      IN e.refs[CHOOSE i \in 1..Len(e.refs) : e.refs[i].name = n]
Limit(sc, via) == IF sc.limit = Huge THEN -1 ELSE IF sc.limit # None THEN sc.limit
                  ELSE IF via = "get" THEN 15 ELSE 300
JobOf(e) ==
    IF e.kind = "never" THEN [via |-> e.via, refused |-> TRUE, counts |-> FALSE, results |-> <<>>, endless |-> FALSE, error |-> <<>>]
    ELSE IF e.kind = "binary" THEN [via |-> e.via, refused |-> TRUE, counts |-> TRUE, results |-> <<>>, endless |-> FALSE, error |-> <<>>]
    ELSE LET sc == TLCEval(Read(e.query)) IN
         IF sc.error # 0 THEN [via |-> e.via, refused |-> TRUE, counts |-> TRUE, results |-> <<>>, endless |-> FALSE, error |-> e.error]
         ELSE LET ref == ListNamed(e, IF sc.dict = <<>> THEN DefaultName ELSE sc.dict)
                  n == Limit(sc, e.via)
                  short == n # -1 /\ n <= Len(ref.results)
              IN [via |-> e.via, refused |-> FALSE, counts |-> TRUE, error |-> <<>>,
                  results |-> IF short THEN SubSeq(ref.results, 1, n) ELSE ref.results,
                  endless |-> ref.cut /\ ~short]

\* A result as it is seen: words with their scores, or a line of text
RECURSIVE LineFrom(_, _)
LineFrom(p, i) == IF i > Len(p) THEN <<>> ELSE p[i].t \o <<32>> \o LineFrom(p, i + 1)
Shown(via, p) == IF via = "get" THEN LineFrom(p, 1) ELSE p
\* Are these the next results of c?  (Of an endless one, not all are known.)
Known(c, seen) == \A i \in 1..Len(seen) :
    got[c] + i <= Len(job[c].results) => seen[i] = Shown(job[c].via, job[c].results[got[c] + i])

\* Is text (a refusal) within what was shown?
Within(text, shown) == \E i \in 0..(Len(shown) - Len(text)) : SubSeq(shown, i + 1, i + Len(text)) = text

--------------------------------------------------------------------------
TraceInit ==
    /\ cid \in 1..Len(Cases) /\ l = 1
    /\ asked = [c \in AllClients |-> 0] /\ told = [c \in AllClients |-> FALSE] /\ known = {} /\ next = 0
    /\ phase = [c \in AllClients |-> "away"] /\ job = [c \in AllClients |-> W!NoJob] /\ run = [c \in AllClients |-> "no"]
    /\ made = [c \in AllClients |-> 0] /\ got = [c \in AllClients |-> 0] /\ others = [c \in AllClients |-> 0]
    /\ active = 0 /\ total = Case.total
Next1 == l' = l + 1 /\ UNCHANGED cid
Same == UNCHANGED <<asked, told, known, next>>
Still == UNCHANGED <<phase, job, run, made, got, others, active, total>>

\* The number of results in an answer: its last line may say that time was up
TimeUp(e) == e.lines # <<>> /\ e.timeup
Answered(e) == Len(e.lines) - (IF e.timeup THEN 1 ELSE 0)

\* The answer which c will get, if it says that time was up
CutShort(c) == {i \in l..Len(Events) : Events[i].k = "answer" /\ Events[i].c = c /\ Events[i].timeup}

\* How many were asked in total is only seen in the metrics.  So before other events, a query is
\* counted right before it begins (next); and it ends as late as it can.
Hidden ==
    /\ l <= Len(Events)
    /\ \E c \in {x \in AllClients : phase[x] \in {"asked", "gone"} /\ run[x] # "over" /\ (next = 0 \/ next = x)} :
        /\ Ev.k \in {"metrics", "settled", "begun", "answer", "end"} \/ Ev.c = c
        /\ \/ W!CountTotal(c) /\ next' = IF Ev.k \in {"metrics", "settled"} THEN 0 ELSE c
           \/ W!Begin(c) /\ next' = 0
           \/ Ev.k = "part" /\ Ev.c = c /\ W!Produce(c, got[c] + Len(Ev.results)) /\ UNCHANGED next
           \/ /\ Ev.k \in {"metrics", "settled", "begun"} \/ Ev.c = c
              /\ LET n == IF job[c].refused THEN 0
                          ELSE IF CutShort(c) # {} THEN Answered(Events[CHOOSE i \in CutShort(c) : TRUE])
                          ELSE IF phase[c] = "gone" \/ job[c].endless THEN made[c]
                          ELSE Len(job[c].results)
                 IN W!Finish(c, n, IsExpired(c))
              /\ UNCHANGED next
           \* (whoever has gone may have been answered completely)
           \/ phase[c] = "gone" /\ ~job[c].endless /\ W!Finish(c, Len(job[c].results), FALSE) /\ UNCHANGED next
    /\ UNCHANGED <<cid, l, asked, told, known>>

Sizes(e) == {<<e.sizes[i].name, e.sizes[i].n>> : i \in 1..Len(e.sizes)} = {<<Case.lists[i].name, Len(Case.lists[i].texts)>> : i \in 1..Len(Case.lists)}
            /\ Len(e.sizes) = Len(Case.lists)
TextsOf(name) == LET I == {i \in 1..Len(Case.lists) : Case.lists[i].name = name}
                     J == {i \in 1..Len(Case.lists) : Case.lists[i].name = DefaultName}
                 IN Case.lists[CHOOSE i \in IF I = {} THEN J ELSE I : TRUE].texts

Step ==
    /\ l <= Len(Events) /\ next = 0
    /\ CASE Ev.k = "open" -> W!Open(Ev.c) /\ Same
         [] Ev.k = "ask" -> W!Ask(Ev.c, TLCEval(JobOf(Ev))) /\ asked' = [asked EXCEPT ![Ev.c] = Ev.at] /\ UNCHANGED <<told, known, next>>
         [] Ev.k = "leave" -> W!Leave(Ev.c) /\ Same
         [] Ev.k = "begun" ->
              /\ run[Ev.c] \in {"active", "over"}
              /\ Check(Ev.n = others[Ev.c], <<"began with", Ev.n, "others", others[Ev.c]>>)
              /\ known' = known \cup {Ev.c} /\ Still /\ UNCHANGED <<asked, told, next>>
         [] Ev.k = "part" ->
              /\ Check(~job[Ev.c].refused, "a result of a query which is none")
              /\ Check(Known(Ev.c, Ev.results), <<"unexpected result after", got[Ev.c], Ev.results[1]>>)
              /\ Check(got[Ev.c] + Len(Ev.results) <= Len(job[Ev.c].results) \/ job[Ev.c].endless, <<"too many results", Len(job[Ev.c].results)>>)
              /\ W!Receive(Ev.c, Len(Ev.results)) /\ Same
         [] Ev.k = "told" ->
              /\ told' = [told EXCEPT ![Ev.c] = @ \/ (job[Ev.c].refused /\ Within(job[Ev.c].error, Ev.text))]
              /\ Still /\ UNCHANGED <<asked, known, next>>
         [] Ev.k = "answer" ->
              LET c == Ev.c
                  j == job[c] IN
              IF ~j.counts THEN Check(Ev.status = 0 \/ Ev.status >= 400, "accepted") /\ Still /\ Same
              ELSE /\ Check(Ev.status = 200, <<"status", Ev.status>>)
                   /\ IF j.refused THEN Check(Within(j.error, Ev.text), "refused without saying so") /\ W!Receive(c, 0)
                      ELSE /\ Check(Known(c, SubSeq(Ev.lines, 1, Answered(Ev))), <<"other results", Answered(Ev), Len(j.results)>>)
                           /\ Check(Ev.timeup \/ Answered(Ev) = Len(j.results), <<"number of results", Answered(Ev), Len(j.results)>>)
                           /\ Check(Ev.timeup => IsExpired(c), "ended before its time")
                           /\ Check(Answered(Ev) <= Len(j.results) \/ j.endless, <<"too many results", Answered(Ev), Len(j.results)>>)
                           /\ W!Receive(c, Answered(Ev))
                   /\ Same
         [] Ev.k = "end" ->
              /\ Check(job[Ev.c].via = "ws" /\ job[Ev.c].refused /\ job[Ev.c].error # <<>> => told[Ev.c], "refused without saying so")
              /\ Check(job[Ev.c].endless \/ job[Ev.c].via # "ws" \/ IsExpired(Ev.c) \/ got[Ev.c] = Len(job[Ev.c].results),
                       <<"ended after results", got[Ev.c], "of", Len(job[Ev.c].results)>>)
              /\ Check(~job[Ev.c].endless \/ IsExpired(Ev.c), "ended early")
              /\ W!End(Ev.c) /\ Same
         [] Ev.k = "metrics" ->
              /\ Check(Ev.active = active, <<"active", Ev.active, "not", active>>)
              /\ Check(Ev.total = total, <<"total", Ev.total, "not", total>>)
              /\ Check(Sizes(Ev), "sizes of word lists") /\ Still /\ Same
         [] Ev.k = "settled" ->
              /\ W!AtRest
              /\ Check(Ev.active = 0, <<"active at rest", Ev.active>>)
              /\ Check(Ev.total = total, <<"total at rest", Ev.total, total>>) /\ Still /\ Same
         [] Ev.k = "list" -> Check(Ev.texts = TextsOf(Ev.name), <<"another word list", Ev.name>>) /\ Still /\ Same
         [] Ev.k = "lists" -> Check(Sizes(Ev), "names and sizes of word lists") /\ Still /\ Same
         [] OTHER -> Reject(Ev.k) /\ Still /\ Same
    /\ Next1
Over == l > Len(Events) /\ Accept /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Hidden \/ Step \/ Over]_tvars
\* What can still be seen
TraceView == <<cid, l, told, known, next, phase, run, made, got, active, total,
               [c \in {x \in AllClients : job[x].via = "ws" /\ phase[x] = "asked" /\ x \notin known} |-> others[c]]>>
Gauge == W!Gauge
TotalRight == W!Total(Case.total)
NothingInvented == W!NothingInvented
Complete == W!Complete
OnlyAsked == W!OnlyAsked
Clean == W!Clean
====
