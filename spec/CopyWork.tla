------------------------------ MODULE CopyWork ------------------------------
(* How the parallel copy and sample tools deal out their work: rank 0 hands out  *)
(* the chunks to the other ranks, who ask for more when they are done with one,   *)
(* and ends them when there is no more work or one has failed; then rank 0 tells  *)
(* everybody whether anything failed.  A rank alone does the work itself.         *)
(* Messages either wait in a buffer or block their sender until they are taken.   *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ranks,       \* number of ranks
          Chunks,      \* number of chunks
          MaxFail      \* at most so many chunks fail
VARIABLES pc, next, left, error,      \* of rank 0: next chunk, ranks to end, whether something failed
          inbox,       \* messages to rank 0: a set of <<rank, tag>> (every rank has at most one)
          mail,        \* rank -> sequence of messages to it
          sync,        \* sends block
          bad,         \* chunks that fail
          did,         \* chunk -> how often it was copied
          told         \* rank -> what it knows of the outcome ("no": nothing yet)
vars == <<pc, next, left, error, inbox, mail, sync, bad, did, told>>
R == 0..(Ranks - 1)
Slaves == 1..(Ranks - 1)
C == 1..Chunks
Init == /\ pc = [ r \in R |-> IF r = 0 THEN "serve" ELSE "ask" ]
        /\ next = 1 /\ left = Ranks - 1 /\ error = 0
        /\ inbox = {} /\ mail = [ r \in Slaves |-> <<>> ]
        /\ sync \in BOOLEAN /\ bad \in { S \in SUBSET C : Cardinality(S) <= MaxFail }
        /\ did = [ c \in C |-> 0 ] /\ told = [ r \in R |-> "no" ]

Ended == IF Ranks = 1 THEN next > Chunks \/ error = 1 ELSE left = 0
\* rank 0 takes a message and answers it
Take == \E m \in inbox :
    LET err == IF m[2] = "ERROR" THEN 1 ELSE error
        die == err = 1 \/ next > Chunks
    IN  /\ pc[0] = "serve" /\ ~Ended
        /\ inbox' = inbox \ {m} /\ error' = err
        /\ mail' = [mail EXCEPT ![m[1]] = Append(@, IF die THEN <<"DIE", 0>> ELSE <<"WORK", next>>)]
        /\ next' = (IF die THEN next ELSE next + 1)
        /\ left' = (IF die THEN left - 1 ELSE left)
        /\ pc' = [pc EXCEPT ![0] = IF sync THEN "sent" ELSE "serve"]
        /\ UNCHANGED <<sync, bad, did, told>>
\* a blocking send is over when the message was taken
Sent0 == pc[0] = "sent" /\ (\A r \in Slaves : mail[r] = <<>>) /\ pc' = [pc EXCEPT ![0] = "serve"]
         /\ UNCHANGED <<next, left, error, inbox, mail, sync, bad, did, told>>
Copy(c) == did' = [did EXCEPT ![c] = IF c \in bad THEN @ ELSE @ + 1]
Alone == /\ Ranks = 1 /\ pc[0] = "serve" /\ ~Ended
         /\ Copy(next) /\ error' = (IF next \in bad THEN 1 ELSE error) /\ next' = next + 1
         /\ UNCHANGED <<pc, left, inbox, mail, sync, bad, told>>
\* the outcome goes to everybody
Tell == /\ pc[0] = "serve" /\ Ended /\ (\A r \in Slaves : mail[r] = <<>> \/ ~sync)
        /\ told' = [told EXCEPT ![0] = IF error = 1 THEN "failed" ELSE "done"]
        /\ mail' = [ r \in Slaves |-> Append(mail[r], <<"END", error>>) ]
        /\ pc' = [pc EXCEPT ![0] = IF sync THEN "told" ELSE "out"]
        /\ UNCHANGED <<next, left, error, inbox, sync, bad, did>>
Told0 == pc[0] = "told" /\ (\A r \in Slaves : mail[r] = <<>>) /\ pc' = [pc EXCEPT ![0] = "out"]
         /\ UNCHANGED <<next, left, error, inbox, mail, sync, bad, did, told>>

Send(r, tag, then) == /\ inbox' = inbox \cup {<<r, tag>>}
                      /\ pc' = [pc EXCEPT ![r] = IF sync THEN "sent" ELSE then]
Ask(r) == pc[r] = "ask" /\ Send(r, "DONE", "wait") /\ UNCHANGED <<next, left, error, mail, sync, bad, did, told>>
SentR(r) == pc[r] = "sent" /\ (\A m \in inbox : m[1] # r) /\ pc' = [pc EXCEPT ![r] = "wait"]
            /\ UNCHANGED <<next, left, error, inbox, mail, sync, bad, did, told>>
Receive(r) ==
    /\ pc[r] = "wait" /\ mail[r] # <<>> /\ Head(mail[r])[1] # "END"
    /\ mail' = [mail EXCEPT ![r] = Tail(@)]
    /\ IF Head(mail[r])[1] = "DIE" THEN pc' = [pc EXCEPT ![r] = "end"] /\ UNCHANGED did
       ELSE pc' = [pc EXCEPT ![r] = IF Head(mail[r])[2] \in bad THEN "fail" ELSE "ask"] /\ Copy(Head(mail[r])[2])
    /\ UNCHANGED <<next, left, error, inbox, sync, bad, told>>
Fail(r) == pc[r] = "fail" /\ Send(r, "ERROR", "wait") /\ UNCHANGED <<next, left, error, mail, sync, bad, did, told>>
End(r) == /\ pc[r] = "end" /\ mail[r] # <<>> /\ Head(mail[r])[1] = "END"
          /\ mail' = [mail EXCEPT ![r] = Tail(@)] /\ pc' = [pc EXCEPT ![r] = "out"]
          /\ told' = [told EXCEPT ![r] = IF Head(mail[r])[2] = 1 THEN "failed" ELSE "done"]
          /\ UNCHANGED <<next, left, error, inbox, sync, bad, did>>
AllOut == \A r \in R : pc[r] = "out"
Over == AllOut /\ UNCHANGED vars
Next == Take \/ Sent0 \/ Alone \/ Tell \/ Told0 \/ (\E r \in Slaves : Ask(r) \/ SentR(r) \/ Receive(r) \/ Fail(r) \/ End(r)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every chunk is copied at most once; if the tool reports success, exactly once
Once == \A c \in C : did[c] <= 1
Whole == \A r \in R : told[r] = "done" => bad = {} /\ \A c \in C : did[c] = 1
\* a failure is known to all, and only failures are
Known == AllOut => (\A r, s \in R : told[r] = told[s]) /\ (told[0] = "failed") = (bad # {})
\* nothing is left over that a later message could be mistaken for
Quiet == AllOut => inbox = {} /\ \A r \in Slaves : mail[r] = <<>>
Terminates == <>AllOut
=============================================================================
