---------------------------- MODULE FormatTrace ----------------------------
(* Columns with damaged description files, opened by the real library.  The file *)
(* also holds a sound column, which must stay listed and readable.               *)
EXTENDS Format, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Has(f) == f \in DOMAIN e
Check(c, x) == IF c THEN TRUE ELSE PrintT("MISMATCH " \o ToString(<<l, x>>)) /\ FALSE

\* header: <<"file", text>>, <<"missing">> or <<"dir">>; the attributes likewise; attr1 holds bytes
HeaderStated == IF e.header[1] = "file" THEN ParseHeader(Chars(e.header[2])) ELSE Fail
NoAttrs == [ok |-> TRUE, attrs |-> {}]
V2Stated == IF e.attr2[1] = "file" THEN ParseAttrs(Chars(e.attr2[2])) ELSE IF e.attr2[1] = "missing" THEN NoAttrs ELSE Fail
V1Stated == IF e.attr1[1] = "file" THEN ParseV1(e.attr1[2]) ELSE NoAttrs

\* the description shown is the one stated
DescOk == LET p == HeaderStated IN
    /\ Check(p.ok, <<"opened, but the description states nothing", e.header, e.desc>>)
    /\ Check(e.desc.dtype \in SameType(p.dtype), <<"type", e.desc.dtype, "stated", p.dtype>>)
    /\ Check(e.desc.nmemb = p.nmemb, <<"nmemb", e.desc.nmemb, "stated", p.nmemb>>)
    /\ Check(e.desc.files = p.files, <<"files", e.desc.files, "stated", p.files>>)
\* the attributes shown are stated, under their names, and none is missing
Attrs2Ok == LET p == V2Stated IN
    /\ Check(p.ok, <<"opened, but the attributes are malformed", e.attr2>>)
    /\ Check(\A i \in 1..Len(e.attrs) : \E a \in p.attrs : a.name = e.attrs[i].name /\ e.attrs[i].dtype \in SameType(a.dtype)
                                                         /\ a.n = e.attrs[i].n /\ a.raw = e.attrs[i].raw, <<"attributes", e.attrs, "stated", p.attrs>>)
    /\ Check({ e.attrs[i].name : i \in 1..Len(e.attrs) } = { a.name : a \in p.attrs }, <<"names", e.attrs, "stated", p.attrs>>)
\* "=" and "|" mean the order of the machine, "<"
SameTypeB(d, o) == o = d \/ (d[1] \in {61, 124} /\ o = <<60>> \o SubSeq(d, 2, Len(d)))
Attrs1Ok == LET p == V1Stated IN
    /\ Check(p.ok, <<"opened, but the attributes are malformed", e.attr1>>)
    /\ Check(\A i \in 1..Len(e.attrs) : \E a \in p.attrs : a.name = e.attrs[i].nameb /\ SameTypeB(a.dtype, e.attrs[i].dtypeb)
                                                         /\ a.n = e.attrs[i].n /\ a.raw = e.attrs[i].raw, <<"attributes", e.attrs, "stated", p.attrs>>)
    /\ Check({ e.attrs[i].nameb : i \in 1..Len(e.attrs) } = { a.name : a \in p.attrs }, <<"names", e.attrs, "stated", p.attrs>>)
NoDup == Check(Cardinality({ e.attrs[i].name : i \in 1..Len(e.attrs) }) = Len(e.attrs), <<"repeated names", e.attrs>>)

TOpen == /\ e.op = "meta"
         /\ Check(e.res \in {"ok", "err"}, <<"result", e.res>>)
         /\ (e.res = "err" => Check(e.msg = "ok", <<"no message">>))
         /\ (e.res = "ok" => DescOk /\ NoDup /\ (IF e.attr2[1] = "file" \/ e.attr1[1] # "file" THEN Attrs2Ok ELSE Attrs1Ok))
         \* what was saved by this or an older version can be opened
         /\ (Has("sound") => Check(e.res = "ok", <<"a sound column is refused", e.header, e.attr2>>))
         \* the other column, and the listing
         /\ Check(e.other = "ok", <<"the other column", e.other>>)
         /\ Check({ e.names[i] : i \in 1..Len(e.names) } = {"good"} \cup (IF e.header[1] = "file" THEN {"bad"} ELSE {})
                  /\ Cardinality({ e.names[i] : i \in 1..Len(e.names) }) = Len(e.names), <<"listing", e.names>>)
TReset == e.op = "reset"
Next == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TOpen)
Spec == l = 1 /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
