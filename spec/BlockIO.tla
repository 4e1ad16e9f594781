------------------------------ MODULE BlockIO ------------------------------
(* How the library carries out write, flush, create and grow on one column, in  *)
(* the steps the operating system sees: each step can fail, be cut short, or be *)
(* the last one of the process.  It is checked here that whatever happens, only *)
(* what the operation in progress was asked to change is affected (Fault.tla);  *)
(* the same relation is what executions of the real library are checked against *)
(* (FaultTrace.tla), with a failure injected at every step they take.           *)
EXTENDS Fault, FiniteSets, TLC

CONSTANTS FS,          \* rows of each physical file
          W,           \* bytes of a row
          Chunk,       \* rows transferred at a time
          MaxOps, MaxFaults
VARIABLES file,        \* file -> bytes
          hdr, atr,    \* lines on disk
          mem,         \* the handle: [hdr, atr: what it would save, hd, ad: unsaved changes]
          pc,          \* the step in progress
          op,          \* the operation in progress and its arguments
          shadow,      \* logical row -> bytes of the last completed write
          saved,       \* [hdr, atr] as of the last completed flush
          open,        \* what failures left open: "meta" if a flush did not complete, rows of failed writes
          nops, nfaults, alive
vars == <<file, hdr, atr, mem, pc, op, shadow, saved, open, nops, nfaults, alive>>

N == Len(FS)
RECURSIVE SumTo(_)
SumTo(i) == IF i = 0 THEN 0 ELSE FS[i] + SumTo(i - 1)
Total == SumTo(N)
FileOf(r) == CHOOSE i \in 1..N : SumTo(i - 1) <= r /\ r < SumTo(i)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* the bytes of row r of the k-th operation
RowBytes(k, r) == [ j \in 1..W |-> 10 * k + j ]
HdrLines(v) == <<<<"type", v>>, <<"files", v>>>>
AtrLines(v) == <<<<"attr", v>>>>

Idle == [at |-> "idle"]
Init == /\ file = [ i \in 1..N |-> <<>> ] /\ hdr = HdrLines(0) /\ atr = AtrLines(0)
        /\ mem = [hv |-> 0, av |-> 0, hd |-> FALSE, ad |-> FALSE]
        /\ pc = Idle /\ op = [k |-> "none"] /\ shadow = [ r \in 0..(Total - 1) |-> NoRow ]
        /\ saved = [hdr |-> HdrLines(0), atr |-> AtrLines(0)]
        /\ open = [meta |-> FALSE, rows |-> {}] /\ nops = 0 /\ nfaults = 0 /\ alive = TRUE

\* --- bytes --------------------------------------------------------------------
PutBytes(f, at, b) == [ i \in 1..Max2(Len(f), IF Len(b) = 0 THEN 0 ELSE at + Len(b)) |->
                          IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE IF i <= Len(f) THEN f[i] ELSE 0 ]
Trunc(f) == <<>>

\* --- starting an operation ------------------------------------------------------
Quiet == alive /\ pc.at = "idle" /\ nops < MaxOps
StartWrite == /\ Quiet
              /\ \E p \in 0..(Total - 1) : \E n \in 1..(Total - p) :
                   /\ op' = [k |-> "write", n |-> nops + 1, lo |-> p, hi |-> p + n]
                   /\ pc' = [at |-> "open", row |-> p]
              /\ mem' = [mem EXCEPT !.hd = TRUE, !.hv = nops + 1]
              /\ nops' = nops + 1 /\ UNCHANGED <<file, hdr, atr, shadow, saved, open, nfaults, alive>>
StartAttr == /\ Quiet /\ mem' = [mem EXCEPT !.ad = TRUE, !.av = nops + 1]
             /\ nops' = nops + 1 /\ UNCHANGED <<file, hdr, atr, pc, op, shadow, saved, open, nfaults, alive>>
StartFlush == /\ Quiet /\ (mem.hd \/ mem.ad)
              /\ op' = [k |-> "flush"] /\ pc' = [at |-> IF mem.hd THEN "hopen" ELSE "aopen"]
              /\ nops' = nops + 1 /\ UNCHANGED <<file, hdr, atr, mem, shadow, saved, open, nfaults, alive>>

\* --- the steps of a write ---------------------------------------------------------
ChunkEnd(r) == Min2(Min2(r + Chunk, op.hi), SumTo(FileOf(r)))
Off(r) == (r - SumTo(FileOf(r) - 1)) * W
Bytes(r, e) == [ i \in 1..((e - r) * W) |-> RowBytes(op.n, r)[((i - 1) % W) + 1] ]
Keep == UNCHANGED <<hdr, atr, mem, op, shadow, saved, open, nops, alive>>
WOpen == pc.at = "open" /\ pc' = [pc EXCEPT !.at = "seek"] /\ UNCHANGED <<file, nfaults>> /\ Keep
WSeek == pc.at = "seek" /\ pc' = [pc EXCEPT !.at = "put"] /\ UNCHANGED <<file, nfaults>> /\ Keep
\* the whole chunk, or (a failure) any part of it
WPut == /\ pc.at = "put"
        /\ LET e == ChunkEnd(pc.row) i == FileOf(pc.row) b == Bytes(pc.row, e) IN
           \E m \in 0..Len(b) :
             /\ file' = [file EXCEPT ![i] = PutBytes(@, Off(pc.row), SubSeq(b, 1, m))]
             /\ IF m = Len(b) THEN pc' = [at |-> "close", row |-> pc.row, before |-> file[i]] /\ UNCHANGED nfaults
                ELSE nfaults < MaxFaults /\ nfaults' = nfaults + 1 /\ pc' = [at |-> "failed"]
        /\ Keep
\* closing can also report that what was written is lost
WClose == /\ pc.at = "close"
          /\ LET e == ChunkEnd(pc.row) IN
             \/ /\ pc' = IF e = op.hi THEN [at |-> "done"] ELSE [at |-> "open", row |-> e]
                /\ UNCHANGED <<file, nfaults>>
             \/ /\ nfaults < MaxFaults /\ nfaults' = nfaults + 1
                /\ file' = [file EXCEPT ![FileOf(pc.row)] = pc.before] /\ pc' = [at |-> "failed"]
          /\ Keep

\* --- the steps of a flush: header (truncate, lines in a buffer, close), then attributes -----
HOpen == pc.at = "hopen" /\ hdr' = <<>> /\ pc' = [at |-> "hput"] /\ UNCHANGED <<file, atr, mem, op, shadow, saved, open, nops, nfaults, alive>>
HPut == /\ pc.at = "hput"
        /\ \E m \in 0..Len(HdrLines(mem.hv)) :
             /\ hdr' = SubSeq(HdrLines(mem.hv), 1, m)
             /\ IF m = Len(HdrLines(mem.hv)) THEN pc' = [at |-> "hclose"] /\ UNCHANGED nfaults
                ELSE nfaults < MaxFaults /\ nfaults' = nfaults + 1 /\ pc' = [at |-> "failed"]
        /\ UNCHANGED <<file, atr, mem, op, shadow, saved, open, nops, alive>>
HClose == /\ pc.at = "hclose"
          /\ mem' = [mem EXCEPT !.hd = FALSE] /\ pc' = [at |-> IF mem.ad THEN "aopen" ELSE "done"]
          /\ UNCHANGED <<file, hdr, atr, op, shadow, saved, open, nops, nfaults, alive>>
AOpen == pc.at = "aopen" /\ atr' = <<>> /\ pc' = [at |-> "aput"] /\ UNCHANGED <<file, hdr, mem, op, shadow, saved, open, nops, nfaults, alive>>
APut == /\ pc.at = "aput"
        /\ \E m \in 0..Len(AtrLines(mem.av)) :
             /\ atr' = SubSeq(AtrLines(mem.av), 1, m)
             /\ IF m = Len(AtrLines(mem.av)) THEN pc' = [at |-> "aclose"] /\ UNCHANGED nfaults
                ELSE nfaults < MaxFaults /\ nfaults' = nfaults + 1 /\ pc' = [at |-> "failed"]
        /\ UNCHANGED <<file, hdr, mem, op, shadow, saved, open, nops, alive>>
AClose == /\ pc.at = "aclose"
          /\ mem' = [mem EXCEPT !.ad = FALSE] /\ pc' = [at |-> "done"]
          /\ UNCHANGED <<file, hdr, atr, op, shadow, saved, open, nops, nfaults, alive>>

\* any other step can be refused
Refused == /\ pc.at \in {"open", "seek", "hopen", "hclose", "aopen", "aclose"} /\ nfaults < MaxFaults
           /\ nfaults' = nfaults + 1 /\ pc' = [at |-> "failed"]
           /\ UNCHANGED <<file, hdr, atr, mem, op, shadow, saved, open, nops, alive>>

\* --- returning -------------------------------------------------------------------
RangeRows == op.lo..(op.hi - 1)
Return == \/ /\ pc.at = "done"
             /\ IF op.k = "write"
                THEN /\ shadow' = [ r \in DOMAIN shadow |-> IF r \in RangeRows THEN RowBytes(op.n, r) ELSE shadow[r] ]
                     /\ open' = [open EXCEPT !.rows = @ \ RangeRows] /\ UNCHANGED saved
                ELSE /\ saved' = [hdr |-> HdrLines(mem.hv), atr |-> AtrLines(mem.av)] /\ open' = [open EXCEPT !.meta = FALSE]
                     /\ UNCHANGED shadow
             /\ pc' = Idle /\ op' = [k |-> "none"] /\ UNCHANGED <<file, hdr, atr, mem, nops, nfaults, alive>>
          \/ /\ pc.at = "failed"
             /\ open' = IF op.k = "write" THEN [open EXCEPT !.rows = @ \cup RangeRows] ELSE [open EXCEPT !.meta = TRUE]
             /\ pc' = Idle /\ op' = [k |-> "none"] /\ UNCHANGED <<file, hdr, atr, mem, shadow, saved, nops, nfaults, alive>>

\* the process dies at any point: all that is left is what is on disk
Die == /\ alive /\ alive' = FALSE /\ UNCHANGED <<file, hdr, atr, mem, pc, op, shadow, saved, open, nops, nfaults>>

Step == alive /\ (WOpen \/ WSeek \/ WPut \/ WClose \/ HOpen \/ HPut \/ HClose \/ AOpen \/ APut \/ AClose \/ Refused \/ Return)
Next == StartWrite \/ StartAttr \/ StartFlush \/ Step \/ Die
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Stored(r) == LET i == FileOf(r) o == Off(r) IN
             IF o + W <= Len(file[i]) THEN SubSeq(file[i], o + 1, o + W) ELSE NoRow
Zero == [ j \in 1..W |-> 0 ]
InProgress == IF op.k = "write" THEN RangeRows ELSE {}
\* C11, C12: every completed row is there, unless a later write of it failed or is in progress --
\* in every state, so whenever the process ends
RowsKept == \A r \in DOMAIN shadow : (r \notin open.rows /\ r \notin InProgress) =>
                IF shadow[r] = NoRow THEN Stored(r) \in {NoRow, Zero} ELSE Stored(r) = shadow[r]
\* the saved description and attributes are there, unless a later flush failed or is in progress
MetaKept == (op.k # "flush" /\ ~open.meta) => hdr = saved.hdr /\ atr = saved.atr
\* success means the effect is complete
Complete == pc.at = "done" =>
    IF op.k = "write" THEN \A r \in RangeRows : Stored(r) = RowBytes(op.n, r)
    ELSE hdr = HdrLines(mem.hv) /\ atr = AtrLines(mem.av)
\* after a failure a flush through the same handle repairs what was left open
Retry == (pc.at = "done" /\ op.k = "flush") => (hdr = HdrLines(mem.hv) /\ atr = AtrLines(mem.av) /\ ~mem.hd /\ ~mem.ad)
Inv == RowsKept /\ MetaKept /\ Complete /\ Retry
DFS == <<1, 0, 2>>
=============================================================================
