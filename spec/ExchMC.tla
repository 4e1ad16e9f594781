------------------------------- MODULE ExchMC -------------------------------
(* The sparse exchange: every rank talks only to those it has items for or from.*)
(* Two ways: all receives, a barrier, all sends, then waiting; or one partner   *)
(* after another, sending to and receiving from it at once.  Sends are as       *)
(* synchronous as MPI allows: they end when they are received.                  *)
EXTENDS Exchange
CONSTANTS N, MaxCount, Ways
R == 1..N
VARIABLES cnt, way, pc, k, posted, sent, moved, bar
vars == <<cnt, way, pc, k, posted, sent, moved, bar>>

\* partners in the order of bitwise differences
Bits == CHOOSE p \in 0..6 : 2^p >= N /\ (p = 0 \/ 2^(p - 1) < N)
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE 2 * Xor(a \div 2, b \div 2) + ((a + b) % 2)
Partner(r, g) == Xor(r - 1, g) + 1
LastOne == 2^Bits - 1

Init == /\ cnt \in [R -> [R -> 0..MaxCount]] /\ way \in Ways
        /\ pc = [ r \in R |-> "start" ] /\ k = [ r \in R |-> 0 ]
        /\ posted = {} /\ sent = {} /\ moved = {} /\ bar = [ r \in R |-> 0 ]
Go(r, where) == pc' = [pc EXCEPT ![r] = where]
Reach(r, n) == bar' = [bar EXCEPT ![r] = n]
Past(n) == \A q \in R : bar[q] >= n
\* a message moves when it is sent and its receive is posted
Move == \E m \in (sent \cap posted) \ moved : moved' = moved \cup {m} /\ UNCHANGED <<cnt, way, pc, k, posted, sent, bar>>

Start(r) == /\ pc[r] = "start"
            /\ IF way = "all"
               THEN /\ posted' = posted \cup { <<s, r>> : s \in { s \in R : cnt[s][r] > 0 } }
                    /\ Go(r, "posted") /\ Reach(r, 1)
               ELSE Go(r, "pair") /\ UNCHANGED <<posted, bar>>
            /\ UNCHANGED <<cnt, way, k, sent, moved>>
Send(r) == /\ pc[r] = "posted" /\ Past(1)
           /\ sent' = sent \cup { <<r, d>> : d \in { d \in R : cnt[r][d] > 0 } }
           /\ Go(r, "wait") /\ UNCHANGED <<cnt, way, k, posted, moved, bar>>
Mine(r) == { m \in sent \cup posted : m[1] = r \/ m[2] = r }
Wait(r) == /\ pc[r] = "wait" /\ { m \in sent : m[1] = r } \subseteq moved /\ { m \in posted : m[2] = r } \subseteq moved
           /\ Go(r, "end") /\ Reach(r, 2) /\ UNCHANGED <<cnt, way, k, posted, sent, moved>>
\* the next partner with something to exchange
Pair(r) == /\ pc[r] = "pair"
           /\ IF k[r] > LastOne THEN Go(r, "end") /\ Reach(r, 2) /\ UNCHANGED <<k, posted, sent>>
              ELSE LET q == Partner(r, k[r]) IN
                   IF q \notin R \/ (cnt[r][q] = 0 /\ cnt[q][r] = 0)
                   THEN k' = [k EXCEPT ![r] = @ + 1] /\ UNCHANGED <<pc, posted, sent, bar>>
                   ELSE /\ sent' = sent \cup {<<r, q>>} /\ posted' = posted \cup {<<q, r>>}
                        /\ Go(r, "both") /\ UNCHANGED <<k, bar>>
           /\ UNCHANGED <<cnt, way, moved>>
Both(r) == /\ pc[r] = "both" /\ LET q == Partner(r, k[r]) IN {<<r, q>>, <<q, r>>} \subseteq moved
           /\ k' = [k EXCEPT ![r] = @ + 1] /\ Go(r, "pair")
           /\ UNCHANGED <<cnt, way, posted, sent, moved, bar>>
Leave(r) == pc[r] = "end" /\ Past(2) /\ Go(r, "done") /\ UNCHANGED <<cnt, way, k, posted, sent, moved, bar>>
AllDone == \A r \in R : pc[r] = "done"
Next == Move \/ (\E r \in R : Start(r) \/ Send(r) \/ Wait(r) \/ Pair(r) \/ Both(r) \/ Leave(r)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Needed == { <<s, d>> \in R \X R : cnt[s][d] > 0 }
Delivered == AllDone => Needed \subseteq moved
OnlyNeeded == way = "all" => moved \subseteq Needed
NothingLeft == AllDone => sent = moved /\ posted = moved
Ends == <>AllDone

\* the layouts agree with each other: each item sent is in one place
Items(s) == [ p \in 1..Sum(cnt[s]) |-> 100 * s + p ]
Recv(d) == LET c == [ i \in R |-> [ j \in R |-> cnt[i][j] ] ]
               col == [ s \in R |-> cnt[s][d] ] IN
           Received(d, Sum(col), [ s \in R |-> Items(s) ], c, [ s \in R |-> Packed(cnt[s]) ], [ j \in R |-> Packed([ s \in R |-> cnt[s][j] ]) ])
InRankOrder == \A d \in R : Recv(d) = FlattenSeq([ s \in R |-> SubSeq(Items(s), Packed(cnt[s])[d] + 1, Packed(cnt[s])[d] + cnt[s][d]) ])
Start0 == \A r \in R : pc[r] = "start"
Order == Start0 => InRankOrder
Emit == IF "EMIT" \notin DOMAIN IOEnv THEN TRUE ELSE PrintT("CALL " \o ToJson([cnt |-> cnt])) /\ FALSE
=============================================================================
