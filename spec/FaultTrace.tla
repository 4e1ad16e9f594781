----------------------------- MODULE FaultTrace -----------------------------
(* Executions in which the operating system refused or cut short one operation  *)
(* of a call, or the process died at it.  A call that returns success must have *)
(* had its whole effect (the ordinary actions).  A call that returns an error,  *)
(* or never returned, may have left what Fault allows, which is then adopted;   *)
(* everything else must be as before, and the history goes on from there.       *)
EXTENDS BigFileTrace, Fault

\* the call in which the failure was placed: it must come back with an error, or not at all
Hit == l <= Len(Trace) /\ Has("fired") /\ e.fired /\ e.res = "err"
Died == l <= Len(Trace) /\ e.op = "crash"
x == IF Died THEN e.inner ELSE e           \* what was called

Same(g, w) == g = w \/ IsTorn(w) \/ (w = NoRow /\ \A i \in 1..Len(g) : g[i] \in {0, HoleMark})
Seen(b) == { i \in 1..Len(e.chg) : e.chg[i].b = b }
Observed(b) == e.chg[CHOOSE i \in Seen(b) : TRUE]

\* the rows a write was asked to change are open, all others are kept
WriteLeft(c, n) ==
    LET b == c.b
        d == disk[b].data
        g == IF Seen(b) = {} \/ "data" \notin DOMAIN Observed(b) THEN d ELSE Observed(b).data
        in == Min2(n, Size(c) - c.pos)
    IN  /\ Check("data", Len(g) = Len(d) /\ \A i \in 1..Len(d) :
               LET r == IF i > Len(c.fsize) THEN [lo |-> 0, hi |-> 0] ELSE Cut(c.fsize, i, c.pos, in) IN
               IF r.lo >= r.hi THEN KeptOutside(d[i], g[i], 0, 0, Same) ELSE KeptOutside(d[i], g[i], r.lo, r.hi, Same),
               <<"rows outside the failed write changed", b, c.pos, n, "before", d, "after", g>>)
        /\ disk' = [disk EXCEPT ![b].data = g,
                                ![b].wr = [ i \in 1..Len(@) |-> IF i <= Len(c.fsize) THEN @[i] \cup Touched(c.fsize, i, c.pos, in) ELSE @[i] ]]
SumsOpen(c, n) == [ i \in 1..Len(c.fsize) |-> IF Touched(c.fsize, i, c.pos, n) = {} THEN c.sum[i] ELSE Unknown ]

\* new files may or may not be there, and hold nothing that counts
GrowLeft(c) ==
    LET b == c.b
        d == disk[b]
        g == IF Seen(b) = {} \/ "data" \notin DOMAIN Observed(b) THEN d.data ELSE Observed(b).data
    IN  /\ Check("data", Len(g) >= Len(d.data) /\ \A i \in 1..Len(c.fsize) : KeptOutside(d.data[i], g[i], 0, 0, Same),
                 <<"rows changed by a failed growth", b, "before", d.data, "after", g>>)
        /\ disk' = [disk EXCEPT ![b].data = g, ![b].wr = [ i \in 1..Len(g) |-> IF i <= Len(@) THEN @[i] ELSE {} ]]

\* --- errors -------------------------------------------------------------------
FWrite == /\ e.op = "write"
          /\ WriteLeft(hnd[e.h], Len(e.rows))
          /\ Check("pos", e.pos \in hnd[e.h].pos..(hnd[e.h].pos + Len(e.rows)), <<"position after a failed write", e.pos>>)
          /\ hnd' = [hnd EXCEPT ![e.h].pos = e.pos, ![e.h].sum = SumsOpen(hnd[e.h], Len(e.rows)), ![e.h].hd = TRUE]
          /\ weak' = weak /\ Mem
FRead == /\ e.op = "read"
         /\ Check("pos", e.pos \in hnd[e.h].pos..(hnd[e.h].pos + e.n), <<"position after a failed read", e.pos>>)
         /\ hnd' = [hnd EXCEPT ![e.h].pos = e.pos]
         /\ UNCHANGED disk /\ weak' = weak /\ Mem
FLook == e.op \in {"open", "readsimple", "list"} /\ UNCHANGED <<disk, hnd>> /\ weak' = weak
FFlush == /\ e.op = "flush" /\ UNCHANGED <<disk, hnd>>
          /\ weak' = [weak EXCEPT !.meta = @ \cup {hnd[e.h].b}]
FClose == /\ e.op = "close" /\ UNCHANGED disk /\ hnd' = DelKey(hnd, e.h)
          /\ weak' = IF Dirtied(e.h) THEN [weak EXCEPT !.meta = @ \cup {hnd[e.h].b}] ELSE weak
FGrow == /\ e.op = "grow" /\ GrowLeft(hnd[e.h]) /\ weak' = weak
         /\ hnd' = [hnd EXCEPT ![e.h].hd = TRUE]
         /\ LET c == hnd[e.h] IN
            Check("hdr", e.desc.fsize = c.fsize /\ e.desc.size = Size(c), <<"description after a failed growth", e.desc, "want", c.fsize>>)
FCreate == /\ e.op = "create" /\ UNCHANGED <<disk, hnd>>
           /\ weak' = [meta |-> weak.meta \cup {e.b}, all |-> weak.all \cup {e.b}]
TErr == Hit /\ l' = l + 1 /\ reply' = Err
        /\ (FWrite \/ FRead \/ FLook \/ FFlush \/ FClose \/ FGrow \/ FCreate) /\ Msg /\ DiskMatches

\* --- the process dies: every handle is gone -----------------------------------------
CrashLeft ==
    CASE x.op = "write" -> WriteLeft(hnd[x.h], Len(x.rows)) /\ weak' = weak
      [] x.op = "grow" -> GrowLeft(hnd[x.h]) /\ weak' = weak
      [] x.op \in {"flush", "close"} -> UNCHANGED disk /\ weak' = IF Dirtied(x.h) THEN [weak EXCEPT !.meta = @ \cup {hnd[x.h].b}] ELSE weak
      [] x.op = "create" -> UNCHANGED disk /\ weak' = [meta |-> weak.meta \cup {x.b}, all |-> weak.all \cup {x.b}]
      [] OTHER -> UNCHANGED disk /\ weak' = weak
TCrash == /\ Died /\ Check("res", e.res = "killed", <<"process ended", e.res>>)
          /\ l' = l + 1 /\ hnd' = <<>> /\ reply' = Err /\ CrashLeft /\ DiskMatches
\* opening a column a failure left open: nothing is claimed, except that nothing else changes
TTry == IsEvent("tryopen") /\ Check("res", e.b \in Doubt, <<"not in doubt", e.b>>)
        /\ UNCHANGED <<disk, hnd, reply>> /\ weak' = weak /\ DiskMatches

FaultNext == BaseNext \/ TErr \/ TCrash \/ TTry
FaultSpec == TraceInit /\ [][FaultNext]_tvars
=============================================================================
