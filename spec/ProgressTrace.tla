---- MODULE ProgressTrace ----
(***************************************************************************)
(* Progress reports.  A case is an evaluation in which the progress was    *)
(* asked for before the first call and after every call, and the results   *)
(* (ref) of another evaluation of the same problem in which it was never   *)
(* asked for.  A report is [pc, done]: the percentages it gives, and       *)
(* whether it says that the evaluation is done.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid,
          l,      \* the event
          j,      \* the report, among those given after it (0: the event itself)
          phase,  \* "words", "phrases" or "done"
          seen,   \* the number of results
          low     \* no percentage of single words may be lower
vars == <<cid, l, j, phase, seen, low>>
Case == Cases[cid]
Event == Case.events[l]
Reject(why) == PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(<<l, j>>) \o " " \o ToString(why)) /\ FALSE
Accept == PrintT("ACCEPT " \o ToString(Case.id)) /\ FALSE

TraceInit == cid \in 1..Len(Cases) /\ l = 1 /\ j = 0 /\ phase = "words" /\ seen = 0 /\ low = 0

\* The first place of a word in the list
RECURSIVE PlaceFrom(_, _)
PlaceFrom(w, i) == IF i > Len(Case.words) THEN 0
                   ELSE IF Case.words[i] = w THEN i ELSE PlaceFrom(w, i + 1)

Respond ==
    /\ l <= Len(Case.events) /\ j = 0
    /\ CASE Event.k = "P" -> UNCHANGED <<phase, seen, low>>
         [] Event.k = "T" -> UNCHANGED <<phase, seen, low>>
         [] Event.k = "L" -> phase' = "phrases" /\ UNCHANGED <<seen, low>>
         [] Event.k = "C" ->
              /\ IF seen = Len(Case.ref) \/ Case.refcut THEN TRUE ELSE Reject("completed early when asked for its progress")
              /\ phase' = "done" /\ UNCHANGED <<seen, low>>
         [] Event.k = "M" ->
              /\ IF phase = "done" THEN Reject("a result after completion")
                 ELSE IF seen < Len(Case.ref) THEN
                    IF Case.ref[seen + 1] = Event.w THEN TRUE
                    ELSE Reject(<<"another result when asked for its progress", Event.w, Case.ref[seen + 1]>>)
                 ELSE IF Case.refcut THEN TRUE ELSE Reject("more results when asked for its progress")
              /\ seen' = seen + 1 /\ phase' = phase
              /\ low' = IF phase = "words" /\ Len(Event.w) = 1
                        THEN LET share == (100 * PlaceFrom(Event.w[1], 1)) \div Len(Case.words)
                             IN IF share > low THEN share ELSE low
                        ELSE low
    /\ j' = 1 /\ UNCHANGED <<cid, l>>

More == Case.cut \/ seen < Len(Case.ref)     \* there are results to come
Report ==
    /\ l <= Len(Case.events) /\ j > 0
    /\ IF j > Len(Event.p) THEN l' = l + 1 /\ j' = 0 /\ low' = low
       ELSE LET r == Event.p[j] IN
            /\ IF \E i \in 1..Len(r.pc) : r.pc[i] < 0 \/ r.pc[i] > 100 THEN Reject(<<"not between 0 and 100", r.pc>>)
               ELSE IF phase = "done" THEN IF r.done THEN TRUE ELSE Reject("does not say that it is done")
               ELSE IF r.done THEN IF More THEN Reject("says that it is done") ELSE TRUE
               ELSE IF Len(r.pc) # 1 THEN Reject("no percentage")
               ELSE IF phase = "words" /\ r.pc[1] < low THEN Reject(<<"went back", r.pc[1], low>>)
               ELSE TRUE
            /\ low' = IF phase = "words" /\ Len(r.pc) = 1 THEN r.pc[1] ELSE low
            /\ j' = j + 1 /\ l' = l
    /\ UNCHANGED <<cid, phase, seen>>
Finish ==
    /\ l > Len(Case.events)
    /\ IF phase = "done" \/ Case.cut THEN Accept ELSE Reject("never completed")
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][Respond \/ Report \/ Finish]_vars

Percentage == low \in 0..100
====
