------------------------------- MODULE ErrMC -------------------------------
(* Two threads that fail, set, clear and read their messages in any order.     *)
EXTENDS ErrMsg, Json, IOUtils, SequencesExt
CONSTANTS MaxOps, Causes
VARIABLES ops, own     \* own: what each thread last did, followed independently
mcv == <<msg, ops, own>>
Log(o) == ops' = Append(ops, o)
MCInit == EInit /\ ops = <<>> /\ own = [ t \in Threads |-> <<>> ]
\* any faithful message: the cause itself, and the cause passed on with additions
Forms(c) == { c, "in f: " \o c, c \o " @(x.c:1)", "%s" \o c \o "%n" }
MFail == \E t \in Threads, c \in Causes : \E m \in Forms(c) :
    /\ Fail(t, <<c>>, m) /\ own' = [own EXCEPT ![t] = <<c>>]
    /\ Log([op |-> "fail", t |-> t, kind |-> c])
MSet == \E t \in Threads : Set(t, "text") /\ own' = [own EXCEPT ![t] = <<"text">>] /\ Log([op |-> "set", t |-> t, text |-> "text"])
MClear == \E t \in Threads : Clear(t) /\ own' = [own EXCEPT ![t] = <<>>] /\ Log([op |-> "clear", t |-> t])
MGet == \E t \in Threads : Get(t) /\ UNCHANGED own /\ Log([op |-> "get", t |-> t])
MCNext == Len(ops) < MaxOps /\ (MFail \/ MSet \/ MClear \/ MGet)
MCSpec == MCInit /\ [][MCNext]_mcv
\* a thread reads its own cause
OwnCause == \A t \in Threads : msg[t].set = (own[t] # <<>>) /\ \A i \in 1..Len(own[t]) : Contains(msg[t].text, own[t][i])
\* what one thread does is not seen by the others
Others == [][ \A t \in Threads : ops'[Len(ops')].t # t => msg'[t] = msg[t] ]_mcv
MCView == <<ops, own>>
Emit == "EMIT" \notin DOMAIN IOEnv \/ PrintT("OPS " \o ToJson(ops'))
DCauses == {"missing", "getattr"}
=============================================================================
