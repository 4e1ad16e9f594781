------------------------------ MODULE RecTrace ------------------------------
(* Executions that contain record operations. *)
EXTENDS BigFileTrace, Records

Layout == IF Has("itemsize")
          THEN /\ Check("mem", e.itemsize = ItemSize(e.rt), <<"itemsize", e.itemsize>>)
               /\ Check("mem", \A i \in 1..Len(e.rt) : e.offsets[i] = Packed(e.rt, i), <<"offsets", e.offsets>>)
          ELSE TRUE
Done == SUBSET (1..Len(e.rt))
\* the outcomes are tried; all print, so only the last mismatch before a rejection matters
TRecCreate == IsEvent("reccreate") /\ (\E d \in Done : RecCreate(e.rt, e.mode, e.fsize, d) /\ DiskMatches) /\ Res
TRecWrite == IsEvent("recwrite") /\ (\E d \in Done : RecWrite(e.rt, e.off, e.vals, e.n, d) /\ DiskMatches) /\ Res /\ Mem /\ Layout
TRecRead == IsEvent("recread") /\ RecRead(e.rt, e.off, e.n) /\ Res /\ Mem /\ Layout /\ DiskMatches
            /\ (e.res = "ok" => \A i \in 1..Len(e.rt) : Check("data", RowsEq(e.vals[i], reply'.vals[i]),
                                    <<"field", i, e.vals[i], "want", reply'.vals[i]>>))
TRecPut == IsEvent("recput") /\ UNCHANGED <<disk, hnd, reply>> /\ Mem

RecNext == BaseNext \/ (weak' = weak /\ (TRecCreate \/ TRecWrite \/ TRecRead \/ TRecPut))
RecSpec == TraceInit /\ [][RecNext]_tvars
=============================================================================
