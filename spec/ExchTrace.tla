----------------------------- MODULE ExchTrace -----------------------------
(* Executions of the exchange helpers; every event carries all ranks' arguments *)
(* and what each of them received.                                              *)
EXTENDS Exchange
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Check(what, cond, detail) == cond \/ (~cond /\ PrintT("MISMATCH " \o ToString(<<l, what, detail>>)) /\ FALSE)
n == Len(e.ranks)
Rk(f(_)) == [ i \in 1..n |-> f(e.ranks[i]) ]
Came == Check("res", e.res = "ok", <<e.op, e.res>>)
\* a given layout, or the packed one
SendAt(r) == IF "sd" \in DOMAIN r THEN r.sd ELSE Packed(r.cnt)
Cnt == [ i \in 1..n |-> e.ranks[i].cnt ]
Column(d) == [ s \in 1..n |-> Cnt[s][d] ]
RecvAt(d) == IF "rd" \in DOMAIN e.ranks[d] THEN e.ranks[d].rd ELSE Packed(Column(d))
Alltoall == /\ e.op = "alltoallv" /\ Came
            /\ \A d \in 1..n :
                 IF e.ask THEN Check("total", e.ranks[d].ret = Sum(Column(d)), <<"rank", d, "told", e.ranks[d].ret, "want", Sum(Column(d))>>)
                 ELSE /\ Check("ret", e.ranks[d].ret = 0, <<"rank", d, "returned", e.ranks[d].ret>>)
                      /\ LET w == Received(d, Len(e.ranks[d].got), [ s \in 1..n |-> e.ranks[s].send ], Cnt,
                                           [ s \in 1..n |-> SendAt(e.ranks[s]) ], [ s \in 1..n |-> IF s = d THEN RecvAt(d) ELSE <<>> ]) IN
                         Check("items", e.ranks[d].got = w, <<"rank", d, "received", e.ranks[d].got, "want", w>>)
                 /\ Check("source", e.ranks[d].kept, <<"rank", d, "what it sent has changed">>)
Total(want, r, i) == IF "tot" \in DOMAIN r THEN Check("total", r.tot = want, <<"rank", i, "told", r.tot, "want", want>>) ELSE TRUE
Gather == /\ e.op = "gather" /\ Came
          /\ LET w == Gathered([ i \in 1..n |-> e.ranks[i].send ]) IN
             \A i \in 1..n :
                 IF i = e.root + 1
                 THEN /\ Total(Len(w), e.ranks[i], i)
                      /\ Check("items", SubSeq(e.ranks[i].got, 1, Len(w)) = w /\ \A k \in (Len(w) + 1)..Len(e.ranks[i].got) : e.ranks[i].got[k] = Untouched,
                               <<"root received", e.ranks[i].got, "want", w>>)
                      /\ Check("place", e.ranks[i].place, <<"the buffer returned is not the one given">>)
                 ELSE /\ Total(0, e.ranks[i], i)
                      /\ Check("items", \A k \in 1..Len(e.ranks[i].got) : e.ranks[i].got[k] = Untouched, <<"rank", i, "received", e.ranks[i].got>>)
Scatter == /\ e.op = "scatter" /\ Came
           /\ LET ns == [ i \in 1..n |-> e.ranks[i].n ]  all == e.ranks[e.root + 1].send IN
              \A i \in 1..n :
                 LET w == Scattered(all, ns, i)  g == e.ranks[i].got IN
                 /\ Check("items", SubSeq(g, 1, Len(w)) = w /\ \A k \in (Len(w) + 1)..Len(g) : g[k] = Untouched, <<"rank", i, "received", g, "want", w>>)
                 /\ Total(IF i = e.root + 1 THEN Sum(ns) ELSE 0, e.ranks[i], i)
                 /\ Check("place", e.ranks[i].place, <<"rank", i, "the buffer returned is not the one given">>)
GetLoc == /\ e.op = "getloc" /\ Came
          /\ LET w == Extreme([ i \in 1..n |-> e.ranks[i].val ], e.max) IN
             \A i \in 1..n : Check("rank", e.ranks[i].ret = w, <<"rank", i, "told", e.ranks[i].ret, "want", w>>)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (e.op \in {"reset", "nop"} \/ Alltoall \/ Gather \/ Scatter \/ GetLoc)
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
