---------------------------- MODULE ConvertTrace ----------------------------
(* Every event is one transfer of several elements between two types: the bytes before and after.                        *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Bad(what) == PrintT("MISMATCH " \o ToString(<<l, e.op, what>>)) /\ FALSE
Good(i) == IF ~Determined(e.src, e.dst, e.inb[i]) THEN TRUE
           ELSE IF SameElement(e.dst, e.outb[i], ConvertElement(e.src, e.dst, e.inb[i])) THEN TRUE
           ELSE Bad(<<e.src, e.dst, e.inb[i], "became", e.outb[i], "want", ConvertElement(e.src, e.dst, e.inb[i])>>)
Conv == /\ e.op = "conv"
        /\ IF Convertible(e.src, e.dst)
           THEN /\ (IF e.res = "ok" THEN TRUE ELSE Bad(<<e.src, e.dst, "refused", e.res>>))
                /\ Len(e.outb) = Len(e.inb) /\ \A i \in 1..Len(e.inb) : Good(i)
           ELSE /\ (IF e.res = "err" THEN TRUE ELSE Bad(<<e.src, e.dst, "not refused", e.res>>))
                /\ (IF e.kept = "ok" THEN TRUE ELSE Bad(<<e.src, e.dst, "refused, but changed the target">>))
        /\ (IF e.mem = "ok" THEN TRUE ELSE Bad(<<e.src, e.dst, "memory", e.mem>>))
Reset == e.op = "reset"
Init == l = 1
Next == l <= Len(Trace) /\ (Conv \/ Reset) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
