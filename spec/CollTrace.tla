----------------------------- MODULE CollTrace -----------------------------
(* Executions of the collective library: every call is made by all ranks        *)
(* together, and has the effect of the serial call on what the ranks hold       *)
(* together, in rank order.  All ranks must see the same outcome, position and  *)
(* description; ranks outside of the communicator take no part.                 *)
EXTENDS FaultTrace, RecTrace

Concat(ps, F(_)) == FoldLeft(LAMBDA acc, p : acc \o F(p), <<>>, ps)
RowsOf(p) == p.rows
CountOf(p) == p.n
Rows == Concat(e.parts, RowsOf)
Total == SumSeq([ i \in 1..Len(e.parts) |-> e.parts[i].n ])
Mismatched(dt, n(_), from) == \E i \in 1..Len(e.parts) :
    n(e.parts[i]) > 0 /\ ~(Known(e.parts[i].mdt) /\ IF from THEN Convertible(dt, e.parts[i].mdt) ELSE Convertible(e.parts[i].mdt, dt))
NRows(p) == Len(p.rows)

AfterFailedWrite(c, n) == [hnd EXCEPT ![e.h].pos = e.pos, ![e.h].sum = SumsOpen(c, n), ![e.h].hd = TRUE]

\* a rank that cannot convert its rows: the call fails, the rows of the others are open
CWrite ==
    LET c == hnd[e.h]
        n == Len(Rows)
    IN  IF n > 0 /\ c.pos + n <= Size(c) /\ Mismatched(c.dtype, NRows, FALSE)
        THEN /\ WriteLeft(c, n) /\ reply' = Err
             /\ Check("pos", e.pos \in c.pos..(c.pos + n), <<"position after a failed write", e.pos>>)
             /\ hnd' = AfterFailedWrite(c, n)
        ELSE Write(e.h, c.dtype, Rows)
CRead ==
    LET c == hnd[e.h] IN
    IF Total > 0 /\ c.pos + Total <= Size(c) /\ Mismatched(c.dtype, CountOf, TRUE)
    THEN /\ reply' = Err /\ UNCHANGED disk
         /\ Check("pos", e.pos \in c.pos..(c.pos + Total), <<"position after a failed read", e.pos>>)
         /\ hnd' = [hnd EXCEPT ![e.h].pos = e.pos]
    ELSE Read(e.h, c.dtype, Total, e.pos)
\* what rank i received
FirstOf(i) == SumSeq([ j \in 1..(i - 1) |-> e.parts[j].n ])
Received == \A i \in 1..Len(e.parts) :
    LET w == SubSeq(reply'.rows, FirstOf(i) + 1, FirstOf(i) + e.parts[i].n) IN
    Check("data", RowsEq(e.got[i], w), <<"rank", i, e.got[i], "want", w>>)

\* --- every rank by itself: rows at a place of its own
FitsAt(c, at, n) == at >= 0 /\ at + n <= Size(c)
LOk(c, p) == FitsAt(c, p.at, Len(p.rows)) /\ (p.rows # <<>> => (Known(p.mdt) /\ Convertible(p.mdt, c.dtype)))
LWrite ==
    LET c == hnd[e.h]
        start == [data |-> disk[c.b].data, wr |-> disk[c.b].wr, sum |-> c.sum]
        one(s, p) == IF p.rows = <<>> \/ ~LOk(c, p) THEN s ELSE
            [data |-> PutRows(s.data, c.fsize, p.at, p.rows),
             sum |-> NewSums([dtype |-> c.dtype, fsize |-> c.fsize, sum |-> s.sum, pos |-> p.at], s.wr, p.rows),
             wr |-> [ i \in 1..Len(s.wr) |-> IF i <= Len(c.fsize) THEN s.wr[i] \cup Touched(c.fsize, i, p.at, Len(p.rows)) ELSE s.wr[i] ]]
        s == FoldLeft(one, start, e.parts)
    IN  /\ disk' = [disk EXCEPT ![c.b].data = s.data, ![c.b].wr = s.wr]
        /\ hnd' = [hnd EXCEPT ![e.h].sum = s.sum, ![e.h].hd = @ \/ \E i \in 1..Len(e.parts) : e.parts[i].rows # <<>> /\ LOk(c, e.parts[i])]
        /\ reply' = Ok
LRes == \A i \in 1..Len(e.parts) :
    LET w == IF LOk(hnd[e.h], e.parts[i]) THEN "ok" ELSE "err" IN
    Check("res", e.ranks[i].res = w, <<"rank", i, "returned", e.ranks[i].res, "want", w>>)
RFits(c, p) == FitsAt(c, p.at, p.n) /\ Covers(disk[c.b].data, c.fsize, p.at, p.n)
               /\ (p.n > 0 => Known(p.mdt) /\ Convertible(c.dtype, p.mdt))
LRead == /\ UNCHANGED <<disk, hnd>> /\ reply' = Ok
         /\ \A i \in 1..Len(e.parts) :
              LET c == hnd[e.h]  p == e.parts[i] IN
              IF RFits(c, p)
              THEN /\ Check("res", e.ranks[i].res = "ok", <<"rank", i, "returned", e.ranks[i].res>>)
                   /\ LET w == GetRows(disk[c.b].data, c.fsize, p.at, p.n) IN
                      Check("data", RowsEq(e.got[i], w), <<"rank", i, e.got[i], "want", w>>)
              ELSE Check("res", e.ranks[i].res = "err", <<"rank", i, "returned", e.ranks[i].res>>)

\* --- what all ranks must agree on
Local == {"lwrite", "lread"}
Agree ==
    l <= Len(Trace) =>
    /\ IF Has("ranks") /\ e.op \notin Local
       THEN \A i \in 1..Len(e.ranks) : Check("agree", e.ranks[i] = e.ranks[1], <<e.op, "rank", i, e.ranks[i], "rank 1", e.ranks[1]>>)
       ELSE TRUE
    /\ IF Has("ranks") /\ e.op \notin Local /\ "msg" \in DOMAIN e.ranks[1]
       THEN Check("agree", e.ranks[1].msg \notin {"none", "stale"}, <<e.op, "failed without a message">>) ELSE TRUE
    /\ IF Has("null") THEN Check("agree", \A i \in 1..Len(e.null) : e.null[i] = "ok", <<e.op, "rank outside of the communicator">>) ELSE TRUE
    /\ IF Has("maxopen") /\ Has("conc")
       THEN LET k == IF e.conc <= 0 THEN Len(e.ranks) ELSE e.conc IN
            Check("conc", e.maxopen <= k, <<e.op, "ranks with files open", e.maxopen, "allowed", k>>)
       ELSE TRUE
    \* what the ranks know is what the specification says
    /\ IF Has("ranks") /\ "attrs" \in DOMAIN e.ranks[1] /\ e.op \in {"open", "create", "flush", "grow"} /\ e.res = "ok"
       THEN Check("attrs", AttrsEq(e.ranks[1].attrs, hnd'[e.h].attrs), <<e.op, e.ranks[1].attrs, "want", hnd'[e.h].attrs>>) ELSE TRUE

\* every row reaches the files once
WrittenOnce == e.res = "ok" => LET n == Len(Rows) * DTypes[hnd[e.h].dtype].w * hnd[e.h].nmemb IN
               Check("conc", e.wrote = n, <<"bytes written", e.wrote, "want", n>>)
TCWrite == IsEvent("cwrite") /\ CWrite /\ WrittenOnce /\ Res /\ Pos(e.h) /\ Mem /\ Msg /\ DiskMatches
TCRead == IsEvent("cread") /\ CRead /\ Res /\ Pos(e.h) /\ Mem /\ Msg /\ DiskMatches
          /\ (e.res = "ok" => Received)
TLWrite == IsEvent("lwrite") /\ LWrite /\ LRes /\ Mem /\ DiskMatches
TLRead == IsEvent("lread") /\ LRead /\ Mem /\ DiskMatches
TCFile == /\ IsEvent("cfile") /\ UNCHANGED <<disk, hnd>>
          /\ reply' = IF e.kind = "there" \/ (e.mode = "create" /\ e.kind = "new") THEN Ok ELSE Err
          /\ Res /\ Msg /\ DiskMatches
          /\ Check("res", e.isdir = (reply' = Ok), <<"directory", e.isdir>>)
          /\ (e.res = "ok" => Check("res", \A i \in 1..Len(e.closed) : e.closed[i] = "ok", <<"close of the file", e.closed>>))

\* --- failures
FCWrite == /\ e.op = "cwrite" /\ WriteLeft(hnd[e.h], Len(Rows))
           /\ Check("pos", e.pos \in hnd[e.h].pos..(hnd[e.h].pos + Len(Rows)), <<"position after a failed write", e.pos>>)
           /\ hnd' = AfterFailedWrite(hnd[e.h], Len(Rows)) /\ weak' = weak /\ Mem
FCRead == /\ e.op = "cread"
          /\ Check("pos", e.pos \in hnd[e.h].pos..(hnd[e.h].pos + Total), <<"position after a failed read", e.pos>>)
          /\ hnd' = [hnd EXCEPT ![e.h].pos = e.pos] /\ UNCHANGED disk /\ weak' = weak /\ Mem
FCFile == e.op = "cfile" /\ UNCHANGED <<disk, hnd>> /\ weak' = weak
TCErr == Hit /\ l' = l + 1 /\ reply' = Err /\ (FCWrite \/ FCRead \/ FCFile) /\ Msg /\ DiskMatches
TCCrash == /\ Died /\ x.op = "cwrite" /\ Check("res", e.res = "killed", <<"process ended", e.res>>)
           /\ l' = l + 1 /\ hnd' = <<>> /\ reply' = Err /\ weak' = weak
           /\ WriteLeft(hnd[x.h], Len(Concat(x.parts, RowsOf))) /\ DiskMatches

CollStep == TCWrite \/ TCRead \/ TLWrite \/ TLRead \/ TCFile
CollNext == /\ FaultNext \/ RecNext \/ TCErr \/ TCCrash \/ (weak' = weak /\ CollStep)
            /\ Agree
CollSpec == TraceInit /\ [][CollNext]_tvars
=============================================================================
