------------------------------ MODULE ErrTrace ------------------------------
(* Checks recorded failures and messages of several threads against ErrMsg.    *)
EXTENDS ErrMsg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<msg, l>>
e == Trace[l]
Check(cond, what) == \/ cond
                     \/ ~cond /\ PrintT("MISMATCH " \o ToString(<<l, what>>)) /\ FALSE
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
TReset == IsEvent("reset") /\ msg' = [ t \in Threads |-> NoMsg ]
TFail == /\ IsEvent("fail")
         /\ Check(e.res = "err", <<"the call", e.kind, "must fail, result", e.res>>)
         /\ Check(e.has, <<"no message after", e.kind>>)
         /\ Check(Faithful(e.msg, e.parts), <<e.kind, "message", e.msg, "must contain", e.parts>>)
         /\ Fail(e.t, e.parts, e.msg)
TSet == IsEvent("set") /\ Set(e.t, e.text) /\ Check(e.res = "done", <<"set", e.res>>)
TClear == IsEvent("clear") /\ Clear(e.t) /\ Check(e.res = "done", <<"clear", e.res>>)
TGet == IsEvent("get") /\ Get(e.t)
        /\ Check(e.has = msg[e.t].set /\ (e.has => e.msg = msg[e.t].text),
                 <<"thread", e.t, "reads", e.has, e.msg, "its last message is", msg[e.t]>>)
\* a call that succeeds; afterwards the thread's message is what it reads next
TOther == IsEvent("good") /\ Check(e.res = "ok", <<"the call", e.kind, "must succeed, result", e.res, e.msg>>)
          /\ msg' = [msg EXCEPT ![e.t] = [set |-> e.has, text |-> e.msg]]
TraceInit == l = 1 /\ msg = [ t \in Threads |-> NoMsg ]
TraceSpec == TraceInit /\ [][TReset \/ TFail \/ TSet \/ TClear \/ TGet \/ TOther]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
