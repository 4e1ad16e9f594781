--------------------------- MODULE BigFileTrace ---------------------------
(* Checks executions of the real library against BigFile.  Every line of the   *)
(* trace is one call: its arguments, what it returned, and -- for every column *)
(* whose files on disk changed during the call -- what an independent reader   *)
(* found on disk afterwards.  Columns that are not mentioned must not change.  *)
EXTENDS BigFile, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* which observations are compared; the others are left to other checks
Facets == { f \in {"data", "hdr", "sum", "attrs", "list", "pos", "mem", "msg", "raw", "agree", "conc"} :
              ("F_" \o f) \in DOMAIN IOEnv \/ "F_all" \in DOMAIN IOEnv }

VARIABLES l,
          weak    \* columns about which a failure left something open (see FaultTrace):
                  \* [meta: description and attributes, all: everything]
tvars == <<disk, hnd, reply, l, weak>>
NoWeak == [meta |-> {}, all |-> {}]

e == Trace[l]
Has(f) == f \in DOMAIN e

Check(facet, cond, expected) ==
    \/ facet # "res" /\ facet \notin Facets
    \/ cond
    \/ ~cond /\ PrintT("MISMATCH " \o ToString(<<l, facet, expected>>)) /\ FALSE

-----------------------------------------------------------------------------
Dirtied(h) == hnd[h].hd \/ hnd[h].ad
(* comparison of what was observed with what the specification says *)
HoleMark == 99999
RowEq(got, want) == IF IsTorn(want) THEN TRUE ELSE
                    IF want = Hole THEN \A i \in 1..Len(got) : got[i] \in {0, HoleMark}
                    ELSE got = want
RowsEq(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : RowEq(got[i], want[i])

DataEq(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : RowsEq(got[i], want[i])
SumEq(got, want) == Len(got) = Len(want)
                    /\ \A i \in 1..Len(got) : want[i] = Unknown \/ got[i] = want[i]

\* the file as bytes, encoded by the specification
RawRow(d, w, want) == IF want = Hole THEN [ i \in 1..w |-> 0 ] ELSE EncodeSeq(d, want)
RawEq(got, c) ==
    \A i \in 1..Len(got) :
        LET w == DTypes[c.dtype].w * c.nmemb IN
        got[i] = FoldLeft(LAMBDA acc, r : acc \o RawRow(c.dtype, w, r), <<>>, c.data[i])

AttrMap(lst) == [ k \in { lst[i][1] : i \in 1..Len(lst) } |->
                    LET i == CHOOSE j \in 1..Len(lst) : lst[j][1] = k IN
                    [dt |-> lst[i][2], n |-> lst[i][3], raw |-> lst[i][4]] ]
Plain(attrs) == [ k \in DOMAIN attrs |-> [dt |-> attrs[k].dt, n |-> attrs[k].n, raw |-> attrs[k].raw] ]
NoDup(lst) == Cardinality({ lst[i][1] : i \in 1..Len(lst) }) = Len(lst)
AttrsEq(lst, attrs) == NoDup(lst) /\ AttrMap(lst) = Plain(attrs)

Meta(b) == b \in weak'.meta      \* nothing is claimed about its description and attributes
Lost(b) == b \in weak'.all       \* nor about its data
SameCol(g, c, b) ==
    /\ Meta(b) \/ Check("hdr", g.dtype = c.dtype /\ g.nmemb = c.nmemb /\ g.fsize = c.fsize,
             <<b, g.dtype, g.nmemb, g.fsize, "want", c.dtype, c.nmemb, c.fsize>>)
    /\ Meta(b) \/ Check("sum", SumEq(g.sum, c.sum), <<b, g.sum, "want", c.sum>>)
    /\ Meta(b) \/ Check("attrs", AttrsEq(g.attrs, c.attrs), <<b, g.attrs, "want", c.attrs>>)
    /\ Check("data", DataEq(g.data, c.data), <<b, g.data, "want", c.data>>)
    /\ IF "raw" \in DOMAIN g THEN Check("raw", RawEq(g.raw, c), <<b, g.raw, "want", c.data>>) ELSE TRUE

\* rows that were never written and rows of zeros are the same bytes
AsZeros(c) == [ i \in 1..Len(c.data) |-> [ k \in 1..Len(c.data[i]) |->
                  IF c.data[i][k] = Hole THEN ZeroRow(c.nmemb) ELSE c.data[i][k] ] ]
\* a column that is not mentioned looks as before (facet by facet)
StillSame(b) ==
    LET c == disk[b]
        d == disk'[b]
    IN  c = d \/ Meta(b) \/
        /\ Check("hdr", c.dtype = d.dtype /\ c.nmemb = d.nmemb /\ c.fsize = d.fsize, <<b, "unchanged, want", d.fsize>>)
        /\ Check("sum", \A i \in 1..Len(d.sum) : d.sum[i] = Unknown \/ (i <= Len(c.sum) /\ c.sum[i] \in {d.sum[i], Unknown}), <<b, "unchanged, want", d.sum>>)
        /\ Check("attrs", Plain(c.attrs) = Plain(d.attrs), <<b, "unchanged, want", d.attrs>>)
        /\ Check("data", c.data = d.data \/ AsZeros(c) = AsZeros(d), <<b, "unchanged, want", d.data>>)

Mentioned == { e.chg[i].b : i \in 1..Len(e.chg) }
EmptyAttrMeta(b) == IsMeta(b) /\ disk'[b].attrs = NoAttrs

DiskMatches ==
    /\ \A i \in 1..Len(e.chg) :
         LET g == e.chg[i] IN
         IF Lost(g.b) THEN TRUE
         ELSE IF "bad" \in DOMAIN g THEN Check("res", FALSE, <<"unreadable or stray files", g>>)
         ELSE IF g.b \in DOMAIN disk' THEN SameCol(g, disk'[g.b], g.b)
         ELSE Check("res", Meta(g.b), <<"unexpected column", g.b>>)
    /\ \A b \in DOMAIN disk' : b \in Mentioned \/ Lost(b) \/
         IF b \in DOMAIN disk THEN StillSame(b)
         ELSE Check("res", EmptyAttrMeta(b), <<"column missing on disk", b>>)

-----------------------------------------------------------------------------
Res == Check("res", e.res = reply'.res, <<e.op, "returned", e.res, "want", reply'.res>>)
Pos(h) == IF Has("pos")
          THEN Check("pos", e.pos = hnd'[h].pos, <<e.op, "position", e.pos, "want", hnd'[h].pos>>)
          ELSE TRUE
Mem == IF Has("mem") THEN Check("mem", e.mem = "ok", <<e.op, "memory", e.mem>>) ELSE TRUE
Msg == IF Has("msg") THEN Check("msg", e.msg = "ok", <<e.op, "message", e.msg>>) ELSE TRUE

DescOk(h) == IF e.res = "ok" /\ Has("desc") THEN
    LET c == hnd'[h] IN
    Check("hdr", e.desc.dtype = c.dtype /\ e.desc.nmemb = c.nmemb /\ e.desc.fsize = c.fsize
                 /\ e.desc.size = Size(c), <<e.op, e.desc, "want", c.dtype, c.nmemb, c.fsize>>)
    ELSE TRUE

IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Is(ops) == l <= Len(Trace) /\ e.op \in ops /\ l' = l + 1

TReset == IsEvent("reset") /\ disk' = <<>> /\ hnd' = <<>> /\ reply' = Ok

TCreate == IsEvent("create")
           /\ Create([b |-> e.b, h |-> e.h, dtype |-> e.dtype, nmemb |-> e.nmemb,
                      fsize |-> e.fsize, badname |-> e.badname])
           /\ Res /\ DescOk(e.h) /\ Msg /\ DiskMatches
TOpen == IsEvent("open") /\ Open(e.b, e.h) /\ Res /\ DescOk(e.h) /\ Msg /\ DiskMatches
\* columns whose description a failure left open may or may not be listed
Doubt == weak.meta \cup weak.all
\* nor what lies below them
NotDoubted(names) == { x \in names : \A b \in Doubt : ~(Len(b) <= Len(x) /\ SubSeq(x, 1, Len(b)) = b) }
TList == IsEvent("list") /\ List(e.p) /\ Res /\ DiskMatches
         /\ Check("list", NoDup([ i \in 1..Len(e.names) |-> <<e.names[i]>> ])
                          /\ NotDoubted({ e.names[i] : i \in 1..Len(e.names) }) = NotDoubted(reply'.names),
                  <<e.names, "want", reply'.names>>)
TFlush == IsEvent("flush") /\ Flush(e.h) /\ Res /\ DiskMatches
TClose == IsEvent("close") /\ Close(e.h) /\ Res /\ DiskMatches
TDrop == IsEvent("drop") /\ Drop(e.h) /\ DiskMatches
TGrow == IsEvent("grow") /\ Grow(e.h, e.fsize) /\ Res /\ DescOk(e.h) /\ DiskMatches
TSeek == IsEvent("seek") /\ Seek(e.h, e.off) /\ Res /\ Pos(e.h) /\ Msg /\ DiskMatches
TSeekRel == IsEvent("seekrel") /\ SeekRel(e.h, e.off) /\ Res /\ Pos(e.h) /\ DiskMatches
TEof == IsEvent("eof") /\ Eof(e.h) /\ Check("pos", e.eof = reply'.eof, <<"eof", e.eof>>) /\ DiskMatches
TWrite == IsEvent("write") /\ Write(e.h, e.mdt, e.rows) /\ Res /\ Pos(e.h) /\ Mem /\ Msg /\ DiskMatches
TRead == IsEvent("read") /\ Read(e.h, e.mdt, e.n, e.pos) /\ Res /\ Pos(e.h) /\ Mem /\ Msg /\ DiskMatches
         /\ (e.res = "ok" => Check("data", RowsEq(e.rows, reply'.rows), <<e.rows, "want", reply'.rows>>))
TOverlong == IsEvent("overlong") /\ Overlong(e.h) /\ Res /\ Pos(e.h) /\ Mem /\ DiskMatches
TReadSimple == IsEvent("readsimple") /\ ReadSimple(e.h, e.start, e.n, e.mdt) /\ Res /\ Pos(e.h) /\ DiskMatches
         /\ (e.res = "ok" => Check("data", RowsEq(e.rows, reply'.rows), <<e.rows, "want", reply'.rows>>))

TSetAttr == IsEvent("setattr")
            /\ SetAttr(e.h, e.name, e.badname,
                       [dt |-> e.dt, n |-> e.n, vals |-> e.vals,
                        raw |-> IF Has("raw") THEN e.raw ELSE EncodeSeq(e.dt, e.vals)])
            /\ Res /\ Mem /\ Msg /\ DiskMatches
TRemoveAttr == IsEvent("rmattr") /\ RemoveAttr(e.h, e.name) /\ Res /\ Msg /\ DiskMatches
Elements(d, raw, want) ==
    LET w == DTypes[d].w IN
    /\ Len(raw) = w * Len(want)
    /\ \A k \in 1..Len(want) : want[k] = <<>> \/ SameElement(d, SubSeq(raw, (k - 1) * w + 1, k * w), want[k])
TGetAttr == IsEvent("getattr") /\ GetAttr(e.h, e.name, e.dt, e.n) /\ Res /\ Msg /\ DiskMatches
            /\ (e.res = "ok" => Check("attrs", Elements(e.dt, e.raw, reply'.elements), <<"getattr", e.name, e.raw, "want", reply'.elements>>))
TLookup == IsEvent("lookup") /\ LookupAttr(e.h, e.name) /\ DiskMatches
           /\ Check("attrs", e.found = reply'.found, <<"lookup", e.name, e.found>>)
           /\ (e.found /\ reply'.found => Check("attrs",
                 e.dt = reply'.v.dt /\ e.n = reply'.v.n /\ e.raw = reply'.v.raw,
                 <<"lookup", e.name, e.dt, e.n, e.raw, "want", reply'.v>>))
TListAttrs == IsEvent("lsattr") /\ ListAttrs(e.h) /\ DiskMatches
              /\ LET w == reply'.list IN
                 Check("attrs", Len(e.attrs) = Len(w)
                       /\ \A i \in 1..Len(w) : e.attrs[i][1] = w[i][1] /\ e.attrs[i][2] = w[i][2].dt
                                               /\ e.attrs[i][3] = w[i][2].n /\ e.attrs[i][4] = w[i][2].raw,
                       <<"lsattr", e.attrs, "want", w>>)
TDescribe == IsEvent("describe") /\ Describe(e.h) /\ DescOk(e.h) /\ DiskMatches
\* a call that has no meaning for the columns (buffer size, stray files made by the harness)
TNop == IsEvent("nop") /\ UNCHANGED <<disk, hnd, reply>>

\* what a failure left open is settled by saving the column, or by creating it anew
NewWeak ==
    IF l > Len(Trace) THEN weak
    ELSE IF e.op = "reset" THEN NoWeak
    ELSE IF e.op = "create" /\ e.res = "ok" THEN [meta |-> weak.meta \ {e.b}, all |-> weak.all \ {e.b}]
    ELSE IF e.op \in {"flush", "close"} /\ e.res = "ok" /\ (hnd[e.h].hd \/ hnd[e.h].ad)
         THEN [weak EXCEPT !.meta = @ \ {hnd[e.h].b}]
    ELSE weak
BaseStep == TReset \/ TCreate \/ TOpen \/ TList \/ TFlush \/ TClose \/ TDrop \/ TGrow \/ TSeek
    \/ TSeekRel \/ TEof \/ TWrite \/ TRead \/ TOverlong \/ TReadSimple \/ TSetAttr \/ TRemoveAttr
    \/ TGetAttr \/ TLookup \/ TListAttrs \/ TDescribe \/ TNop
BaseNext == weak' = NewWeak /\ BaseStep

TraceInit == Init /\ l = 1 /\ weak = NoWeak
TraceNext == BaseNext
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
