------------------------------- MODULE ErrMsg -------------------------------
(* The error message a thread can read after a failing call.                   *)
(* Each thread has its own message; a failure replaces it by one that contains *)
(* the original cause verbatim; nothing another thread does changes it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads
VARIABLES msg          \* thread -> [set |-> BOOLEAN, text |-> STRING]
NoMsg == [set |-> FALSE, text |-> ""]

\* does text contain part (both are strings)
Contains(text, part) ==
    \/ Len(part) = 0
    \/ \E i \in 1..(Len(text) - Len(part) + 1) : SubSeq(text, i, i + Len(part) - 1) = part

\* a message m is faithful to a cause that consists of the given parts
Faithful(m, parts) == Len(m) > 0 /\ \A i \in 1..Len(parts) : Contains(m, parts[i])

EInit == msg = [ t \in Threads |-> NoMsg ]
Fail(t, parts, m) == Faithful(m, parts) /\ msg' = [msg EXCEPT ![t] = [set |-> TRUE, text |-> m]]
\* the message is set or cleared by the caller
Set(t, m) == msg' = [msg EXCEPT ![t] = [set |-> TRUE, text |-> m]]
Clear(t) == msg' = [msg EXCEPT ![t] = NoMsg]
\* reading gives what this thread's last failure or setting left
Get(t) == UNCHANGED msg
=============================================================================
