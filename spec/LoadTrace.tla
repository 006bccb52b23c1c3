---- MODULE LoadTrace ----
(***************************************************************************)
(* Checks word lists loaded by the code against Loader, one line of the    *)
(* file at a time.  A case is                                              *)
(*   bytes     what the file says                                          *)
(*   readable  whether it can be read at all                               *)
(*   got       the words loaded: [t, r, s, c], or refused                  *)
(*   place     where the word of each line ended up (0: nowhere), for      *)
(*             large files of different words; otherwise <<>>              *)
(***************************************************************************)
EXTENDS Loader, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, at, line, st, kept
vars == <<cid, at, line, st, kept>>
Case == Cases[cid]
Verdict(why) == IF why = <<>> THEN PrintT("ACCEPT " \o ToString(Case.id))
                ELSE PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(line) \o " " \o ToString(why))

Large == Len(Case.place) > 0
Plainly(g) == [t |-> g.t, r |-> g.r, s |-> g.s]

TraceInit == cid \in 1..Len(Cases) /\ at = 1 /\ line = 0 /\ st = Start /\ kept = <<>>
Reading == Case.readable /\ at <= Len(Case.bytes)

\* The word of this line is where it is said to be
Placed(x, p) == IF x = <<>> THEN p = 0
                ELSE p \in 1..Len(Case.got) /\ Plainly(Case.got[p]) = x[1]

ReadOne ==
    /\ Reading
    /\ LET j == NewlineFrom(Case.bytes, at)
           s == ReadLine(st, LineBytes(Case.bytes, at, j))
       IN /\ at' = j + 1
          /\ line' = line + 1
          /\ st' = s
          /\ IF Large THEN Placed(s.word, Case.place[line + 1]) /\ UNCHANGED kept
             ELSE kept' = kept \o s.word
          /\ UNCHANGED cid
Misplaced ==
    /\ Reading /\ Large
    /\ LET j == NewlineFrom(Case.bytes, at)
           s == ReadLine(st, LineBytes(Case.bytes, at, j))
       IN /\ ~Placed(s.word, Case.place[line + 1])
          /\ Verdict(<<"line", line + 1, "expected", s.word, "at", Case.place[line + 1],
                       IF Case.place[line + 1] \in 1..Len(Case.got) THEN Case.got[Case.place[line + 1]] ELSE "nothing">>)
          /\ FALSE
    /\ UNCHANGED vars

\* How often x is among ws
Times(x, ws) == Cardinality({i \in 1..Len(ws) : ws[i] = x})
Final ==
    LET g == Case.got
        n == Cardinality({i \in 1..Len(Case.place) : Case.place[i] > 0})
        gw == [i \in 1..Len(g) |-> Plainly(g[i])]
    IN IF ~Case.readable THEN IF Case.refused THEN <<>> ELSE <<"an unreadable file was not refused">>
       ELSE IF Case.refused THEN <<"refused">>
       ELSE IF \E i \in 1..Len(g) : g[i].c # Normalise(g[i].t) THEN <<"letters">>
       ELSE IF ~InOrder(gw) THEN <<"not in order">>
       ELSE IF Large THEN IF Len(g) = n /\ Cardinality({Case.place[i] : i \in 1..Len(Case.place)} \ {0}) = n THEN <<>>
                          ELSE <<"number of words", Len(g), n>>
       ELSE IF Len(g) # Len(kept) THEN <<"number of words", Len(g), "expected", kept>>
       ELSE IF \E i \in 1..Len(g) : Times(gw[i], gw) # Times(gw[i], kept) THEN <<"words", gw, "expected", kept>>
       ELSE <<>>
Judge == ~Reading /\ Verdict(Final) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][ReadOne \/ Misplaced \/ Judge]_vars
Bounded == st.cnt <= st.size
====
