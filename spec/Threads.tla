------------------------------ MODULE Threads ------------------------------
(* Several threads in the library at once.  A transfer goes through a buffer in  *)
(* pieces (fill, open, seek, put, close); a failing call leaves a message.  The  *)
(* buffer and the message belong to the call and to the thread, so the result    *)
(* is that of the threads running one after another: every thread observes, and  *)
(* leaves on disk, what it would have alone.  With Shared = TRUE (one buffer or  *)
(* one message for the process) TLC finds the interleavings that break this.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Threads, Rows, Chunk, Shared
VARIABLES pc, row, buf, file, back, msg, seen
vars == <<pc, row, buf, file, back, msg, seen>>
Own(t) == IF Shared THEN 0 ELSE t
Cells == IF Shared THEN {0} ELSE Threads
Value(t, r) == 100 * t + r
Init == /\ pc = [ t \in Threads |-> "fill" ] /\ row = [ t \in Threads |-> 1 ]
        /\ buf = [ c \in Cells |-> <<>> ] /\ msg = [ c \in Cells |-> 0 ]
        /\ file = [ t \in Threads |-> <<>> ] /\ back = [ t \in Threads |-> <<>> ] /\ seen = [ t \in Threads |-> -1 ]
Last(t) == IF row[t] + Chunk - 1 < Rows THEN row[t] + Chunk - 1 ELSE Rows
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* writing: convert into the buffer, then the buffer goes to the file
Fill(t) == /\ pc[t] = "fill" /\ Go(t, "put")
           /\ buf' = [buf EXCEPT ![Own(t)] = [ i \in 1..(Last(t) - row[t] + 1) |-> Value(t, row[t] + i - 1) ]]
           /\ UNCHANGED <<row, file, back, msg, seen>>
Put(t) == /\ pc[t] = "put" /\ file' = [file EXCEPT ![t] = @ \o buf[Own(t)]]
          /\ IF Last(t) = Rows THEN Go(t, "get") /\ row' = [row EXCEPT ![t] = 1]
             ELSE Go(t, "fill") /\ row' = [row EXCEPT ![t] = Last(t) + 1]
          /\ UNCHANGED <<buf, back, msg, seen>>
\* reading: the file goes into the buffer, then is converted to the caller's memory
Get(t) == /\ pc[t] = "get" /\ Go(t, "take")
          /\ buf' = [buf EXCEPT ![Own(t)] = SubSeq(file[t], row[t], Last(t))]
          /\ UNCHANGED <<row, file, back, msg, seen>>
Take(t) == /\ pc[t] = "take" /\ back' = [back EXCEPT ![t] = @ \o buf[Own(t)]]
           /\ IF Last(t) = Rows THEN Go(t, "fail") /\ UNCHANGED row
              ELSE Go(t, "get") /\ row' = [row EXCEPT ![t] = Last(t) + 1]
           /\ UNCHANGED <<buf, file, msg, seen>>
\* a refused call, and asking why
Fail(t) == pc[t] = "fail" /\ Go(t, "ask") /\ msg' = [msg EXCEPT ![Own(t)] = t] /\ UNCHANGED <<row, buf, file, back, seen>>
Ask(t) == pc[t] = "ask" /\ Go(t, "end") /\ seen' = [seen EXCEPT ![t] = msg[Own(t)]] /\ UNCHANGED <<row, buf, file, back, msg>>
Next == \E t \in Threads : Fill(t) \/ Put(t) \/ Get(t) \/ Take(t) \/ Fail(t) \/ Ask(t)
Spec == Init /\ [][Next]_vars
All(t) == [ r \in 1..Rows |-> Value(t, r) ]
Undisturbed == \A t \in Threads :
    /\ pc[t] \notin {"fill", "put"} => file[t] = All(t)
    /\ pc[t] \notin {"fill", "put", "get", "take"} => back[t] = All(t)
    /\ pc[t] = "end" => seen[t] = t
=============================================================================
