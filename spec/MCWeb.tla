---- MODULE MCWeb ----
(***************************************************************************)
(* All behaviours of the web service with a few clients and short answers; *)
(* that it answers whoever waits, and is left with nothing when they have  *)
(* gone.                                                                   *)
(***************************************************************************)
EXTENDS Web
CONSTANTS c1, c2, c3
TwoClients == {c1, c2}
ThreeClients == {c1, c2, c3}
Jobs == {[via |-> v, refused |-> r, counts |-> TRUE, results |-> rs, endless |-> e] :
            v \in {"get", "ws"}, r \in {TRUE, FALSE}, rs \in {<<1, 2>>}, e \in {TRUE, FALSE}}
        \cup {[via |-> "post", refused |-> FALSE, counts |-> FALSE, results |-> <<>>, endless |-> FALSE]}
Proper(j) == (j.refused => ~j.endless)
Max == 3

MCInit == Init(0)
\* (a query may run for too long at any time)
Service(c) == CountTotal(c) \/ Begin(c) \/ (\E n \in 1..Max : Produce(c, n)) \/ (\E n \in 0..Max : Finish(c, n, TRUE))
Sees(c) == (\E n \in 1..Max : Receive(c, n)) \/ End(c)
Client(c) == Open(c) \/ (\E j \in Jobs : Proper(j) /\ Ask(c, j)) \/ Leave(c)
MCNext == \E c \in Clients : Service(c) \/ Sees(c) \/ Client(c)
MCSpec == MCInit /\ [][MCNext]_vars
          /\ \A c \in Clients : WF_vars(Service(c)) /\ SF_vars(\E n \in 0..Max : Finish(c, n, TRUE)) /\ WF_vars(Sees(c)) /\ SF_vars(End(c))
TotalRight == Total(0)
\* The total never goes back, and nobody is answered twice
Forward == [][total' >= total /\ \A c \in Clients : got'[c] >= got[c] /\ (phase[c] = "answered" => phase'[c] = "answered")]_vars
\* Whoever waits is answered; when all have gone, nothing is active
Answered == \A c \in Clients : phase[c] = "asked" ~> phase[c] \in {"answered", "gone"}
Returns == (\A c \in Clients : phase[c] \in {"answered", "gone"}) ~> active = 0
====
