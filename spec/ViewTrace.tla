----------------------------- MODULE ViewTrace -----------------------------
(* Transfers through memory views: the event carries the buffer before and     *)
(* after the call, byte by byte, and the view.                                 *)
EXTENDS BigFileTrace, View

V == [dims |-> e.dims, strides |-> e.strides, base |-> e.base, w |-> DTypes[e.mdt].w]
NM(h) == IF hnd[h].nmemb = 0 THEN 1 ELSE hnd[h].nmemb
\* the values in C order, cut into rows
InRows(vals, nm) == [ k \in 1..(Len(vals) \div nm) |-> SubSeq(vals, (k - 1) * nm + 1, k * nm) ]
Flat(rows) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, rows)

TVWrite == /\ IsEvent("vwrite")
           /\ Check("res", Holds(e.mem0, V, e.mdt, e.vals), <<"harness: source not as described">>)
           /\ Write(e.h, e.mdt, InRows(e.vals, NM(e.h)))
           /\ Res /\ Pos(e.h) /\ DiskMatches
           /\ Check("mem", e.mem1 = e.mem0, <<"source changed", e.mem0, e.mem1>>)
TVRead == /\ IsEvent("vread")
          /\ Check("res", Disjoint(V), <<"harness: target overlaps itself">>)
          /\ Read(e.h, e.mdt, Volume(e.dims) \div NM(e.h), e.pos)
          /\ Res /\ Pos(e.h) /\ DiskMatches
          /\ e.res = "ok" =>
               LET vals == Flat(reply'.rows) IN
               /\ Check("data", Holds(e.mem1, V, e.mdt, vals), <<"view does not hold the rows", vals, e.mem1>>)
               /\ Check("mem", e.mem1 = Stored(e.mem0, V, e.mdt, vals), <<"memory outside of the view changed">>)
ViewNext == BaseNext \/ (weak' = weak /\ (TVWrite \/ TVRead))
ViewSpec == TraceInit /\ [][ViewNext]_tvars
=============================================================================
