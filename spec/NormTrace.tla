---- MODULE NormTrace ----
(***************************************************************************)
(* Checks words made by the code from texts against Alphabet: a machine    *)
(* which reads a text one character at a time, and is not impressed by its *)
(* neighbours.  A case is a batch of texts.                                *)
(***************************************************************************)
EXTENDS Alphabet, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i
vars == <<cid, i>>
Case == Cases[cid]
Verdict(why) == IF why = <<>> THEN PrintT("ACCEPT " \o ToString(Case.id))
                ELSE PrintT("REJECT " \o ToString(Case.id) \o " " \o ToString(i) \o " " \o ToString(why))

Right(k) == LET x == Case.texts[k]
                g == Case.got[k]
            IN g.t = x /\ g.c = Normalise(x) /\ g.r = Case.r /\ g.s = Case.s
Wrong == {k \in 1..Len(Case.texts) : ~Right(k)}
TraceInit == cid \in 1..Len(Cases) /\ i = 0
Judge == Verdict(IF Len(Case.got) # Len(Case.texts) THEN <<"number of words">>
                 ELSE LET w == Wrong IN
                      IF w = {} THEN <<>>
                      ELSE LET k == CHOOSE k \in w : TRUE IN <<"text", Case.texts[k], "expected", Normalise(Case.texts[k]), "got", Case.got[k]>>)
         /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][Judge]_vars
Wellformed == \A k \in 1..Len(Case.texts) : LET n == Normalise(Case.texts[k]) IN n[Len(n)] = WordEnd /\ \A j \in 1..Len(n) : n[j] \in AnyChar
====
