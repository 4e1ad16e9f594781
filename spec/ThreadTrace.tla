---------------------------- MODULE ThreadTrace ----------------------------
(* Executions of several threads at once, each on columns of its own.  What one  *)
(* thread does is BigFile's behaviour on its columns alone: the product of the   *)
(* threads (Threads) leaves each thread's projection unchanged, so every         *)
(* thread's recorded calls are checked one thread after another, whatever the    *)
(* schedule was.  A piece of work too large to record is compared with what it   *)
(* observed when it ran alone.                                                   *)
EXTENDS BigFileTrace
TThread == IsEvent("thread") /\ disk' = <<>> /\ hnd' = <<>> /\ reply' = Ok
TJoined == IsEvent("joined") /\ Check("res", e.stray = <<>>, <<"stray files", e.stray>>) /\ disk' = <<>> /\ hnd' = <<>> /\ reply' = Ok
TBulk == IsEvent("bulk") /\ Check("res", e.got = e.alone, <<"work", e.k, "observed", e.got, "alone", e.alone>>)
         /\ UNCHANGED <<disk, hnd, reply>>
ThreadNext == BaseNext \/ (weak' = weak /\ (TThread \/ TJoined \/ TBulk))
ThreadSpec == TraceInit /\ [][ThreadNext]_tvars
=============================================================================
