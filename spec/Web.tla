---- MODULE Web ----
(***************************************************************************)
(* The web service.  Clients ask one query each, in one of three ways:     *)
(*   "get", "post"  the answer comes as a whole, when the query has ended  *)
(*   "ws"           a websocket is opened, the query is sent, and results  *)
(*                  come as they are found                                 *)
(* The service keeps two numbers: how many queries were asked in total,    *)
(* and how many are being evaluated.                                       *)
(*                                                                         *)
(* A job is a query: [via, refused, counts, results, endless]; results are *)
(* those an evaluation answers (if endless, only those known of it),       *)
(* counts is FALSE for a request which never reaches an evaluation.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients
VARIABLES phase,    \* client: "away", "open", "asked", "answered" or "gone"
          job,      \* client: its query
          run,      \* client: "no", "counted", "active" or "over"
          made,     \* client: the number of results the evaluation has found
          got,      \* client: the number of results which it received
          others,   \* client: how many others were active when its query began
          active, total
vars == <<phase, job, run, made, got, others, active, total>>

NoJob == [via |-> "none", refused |-> FALSE, counts |-> FALSE, results |-> <<>>, endless |-> FALSE]

Init(total0) ==
    /\ phase = [c \in Clients |-> "away"]
    /\ job = [c \in Clients |-> NoJob]
    /\ run = [c \in Clients |-> "no"]
    /\ made = [c \in Clients |-> 0]
    /\ got = [c \in Clients |-> 0]
    /\ others = [c \in Clients |-> 0]
    /\ active = 0 /\ total = total0

--------------------------------------------------------------------------
\* What clients do
Open(c) ==
    /\ phase[c] = "away"
    /\ phase' = [phase EXCEPT ![c] = "open"]
    /\ UNCHANGED <<job, run, made, got, others, active, total>>
Ask(c, j) ==
    /\ phase[c] = IF j.via = "ws" THEN "open" ELSE "away"
    /\ phase' = [phase EXCEPT ![c] = "asked"]
    /\ job' = [job EXCEPT ![c] = j]
    /\ UNCHANGED <<run, made, got, others, active, total>>
\* A client may close its connection at any time
Leave(c) ==
    /\ phase[c] \in {"open", "asked"}
    /\ phase' = [phase EXCEPT ![c] = "gone"]
    /\ UNCHANGED <<job, run, made, got, others, active, total>>

\* What the service does, unseen
CountTotal(c) ==
    /\ phase[c] \in {"asked", "gone"} /\ job[c].counts /\ run[c] = "no"
    /\ run' = [run EXCEPT ![c] = "counted"] /\ total' = total + 1
    /\ UNCHANGED <<phase, job, made, got, others, active>>
Begin(c) ==
    /\ run[c] = "counted"
    /\ run' = [run EXCEPT ![c] = "active"] /\ active' = active + 1
    /\ others' = [others EXCEPT ![c] = active]
    /\ UNCHANGED <<phase, job, made, got, total>>
\* It finds the results up to the n-th
Produce(c, n) ==
    /\ run[c] = "active" /\ ~job[c].refused
    /\ n > made[c] /\ (n <= Len(job[c].results) \/ job[c].endless)
    /\ made' = [made EXCEPT ![c] = n]
    /\ UNCHANGED <<phase, job, run, got, others, active, total>>
\* A query ends with all its results; or with fewer, if it ran for as long as it may (expired);
\* if nobody is there, anyhow
MayEnd(c, n, expired) ==
    \/ job[c].refused /\ n = 0
    \/ ~job[c].refused /\ ~job[c].endless /\ n = Len(job[c].results)
    \/ ~job[c].refused /\ n >= made[c] /\ expired /\ (job[c].endless \/ n <= Len(job[c].results))
    \/ phase[c] = "gone" /\ n = made[c]
Finish(c, n, expired) ==
    /\ run[c] = "active" /\ MayEnd(c, n, expired)
    /\ run' = [run EXCEPT ![c] = "over"] /\ made' = [made EXCEPT ![c] = n] /\ active' = active - 1
    /\ UNCHANGED <<phase, job, got, others, total>>

\* What clients see: n more results, the next ones of their query
Receive(c, n) ==
    /\ phase[c] = "asked" /\ run[c] \in {"active", "over"}
    /\ job[c].via # "ws" => run[c] = "over"
    /\ got[c] + n <= made[c]
    /\ got' = [got EXCEPT ![c] = @ + n]
    /\ UNCHANGED <<phase, job, run, made, others, active, total>>
\* The end of the answer
End(c) ==
    /\ phase[c] = "asked" /\ got[c] = made[c]
    /\ run[c] = IF job[c].counts THEN "over" ELSE "no"
    /\ phase' = [phase EXCEPT ![c] = "answered"]
    /\ UNCHANGED <<job, run, made, got, others, active, total>>

--------------------------------------------------------------------------
TypeOK ==
    /\ \A c \in Clients : phase[c] \in {"away", "open", "asked", "answered", "gone"}
                          /\ run[c] \in {"no", "counted", "active", "over"}
    /\ active \in 0..Cardinality(Clients)
\* The gauge counts the queries which are being evaluated, the other number all that were asked
Gauge == active = Cardinality({c \in Clients : run[c] = "active"})
Total(total0) == total = total0 + Cardinality({c \in Clients : run[c] # "no"})
\* Nobody receives what was not found; an answer which ended is complete
NothingInvented == \A c \in Clients : got[c] <= made[c] /\ (~job[c].endless => made[c] <= Len(job[c].results))
Complete == \A c \in Clients : phase[c] = "answered" =>
                got[c] = made[c] /\ run[c] = IF job[c].counts THEN "over" ELSE "no"
\* Only what was asked is evaluated
OnlyAsked == \A c \in Clients : run[c] # "no" => phase[c] \in {"asked", "answered", "gone"} /\ job[c].counts
\* Nothing of the service is left when nobody waits
AtRest == \A c \in Clients : phase[c] \in {"away", "answered", "gone"} /\ run[c] \in {"no", "over"}
Clean == AtRest => active = 0
====
