------------------------------ MODULE PyTrace ------------------------------
(* Executions of Python programs against PyFile. *)
EXTENDS BigFileTrace, PyFile

VARIABLES fl,     \* file objects: [p, seen]: the directory, and what its list of columns has been
                  \* since the object last looked (it may look once and remember)
          ds,     \* dataset objects
          pk      \* pickles of columns
pyvars == <<disk, hnd, reply, l, weak, fl, ds, pk>>
Objs == <<fl, ds, pk>>

NamesIn(d, p) ==
    LET B == { b \in DOMAIN d : ~IsMeta(b) } IN
    { b \in B : /\ Inside(p, b) /\ ~Hidden(SubSeq(b, Len(p) + 1, Len(b)))
                /\ \A q \in B : Inside(p, q) => ~Inside(q, b) }
DirExists(p) == p = <<>> \/ \E b \in DOMAIN disk : Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p

\* every file object may see the columns as they are now
\* (but what one of several ranks does on its own changes nothing there: see PyMpiTrace)
Looks(f) == IF Has("r") THEN f ELSE [ k \in DOMAIN f |-> [f[k] EXCEPT !.seen = @ \cup {NamesIn(disk', f[k].p)}] ]
\* the object f has looked just now
Fresh(f) == [Looks(fl) EXCEPT ![f].seen = {NamesIn(disk', fl[f].p)}]

PyDesc(h) == IF e.res = "ok" /\ Has("desc") THEN
    LET c == hnd'[h] IN
    Check("hdr", e.desc.dtype = c.dtype /\ e.desc.nmemb = c.nmemb /\ e.desc.nfile = Len(c.fsize) /\ e.desc.size = Size(c),
          <<e.op, e.desc, "want", c.dtype, c.nmemb, c.fsize>>)
    ELSE TRUE

\* --- files
TFile == IsEvent("pyfile") /\ HoldOn
         /\ reply' = (IF DirExists(e.p) THEN Ok ELSE Err)
         /\ fl' = (IF reply'.res = "ok" THEN SetKey(Looks(fl), e.f, [p |-> e.p, seen |-> {NamesIn(disk, e.p)}]) ELSE Looks(fl))
         /\ UNCHANGED <<ds, pk>> /\ Res /\ DiskMatches
TFCopy == IsEvent("pyfcopy") /\ HoldOn /\ reply' = Ok /\ fl' = SetKey(Looks(fl), e.g, fl[e.f])
          /\ UNCHANGED <<ds, pk>> /\ Res /\ DiskMatches
TNames == IsEvent("pylist") /\ HoldOn /\ reply' = Ok /\ fl' = Looks(fl) /\ UNCHANGED <<ds, pk>> /\ Res /\ DiskMatches
          /\ Check("list", NoDup([ i \in 1..Len(e.names) |-> <<e.names[i]>> ])
                           /\ { e.names[i] : i \in 1..Len(e.names) } \in (IF e.how = "now" THEN {NamesIn(disk, fl[e.f].p)} ELSE fl'[e.f].seen),
                   <<e.names, "want", fl'[e.f].seen>>)
THas == IsEvent("pyhas") /\ HoldOn /\ reply' = Ok /\ fl' = Looks(fl) /\ UNCHANGED <<ds, pk>> /\ Res /\ DiskMatches
        /\ Check("list", e.found \in { (e.b \in s) : s \in fl'[e.f].seen }, <<"contains", e.b, e.found>>)

\* --- columns
Created(f) == fl' = (IF reply'.res = "ok" THEN Fresh(f) ELSE Looks(fl)) /\ UNCHANGED <<ds, pk>>
TPCreate == IsEvent("pycreate")
            /\ PyCreate([b |-> e.b, h |-> e.h, dtype |-> e.dtype, nmemb |-> e.nmemb, size |-> e.size, nfile |-> e.nfile])
            /\ Created(e.f) /\ Res /\ PyDesc(e.h) /\ DiskMatches
TFromArray == IsEvent("pyarr")
              /\ PyFromArray([b |-> e.b, h |-> e.h, dtype |-> e.dtype, nmemb |-> e.nmemb, rows |-> e.rows, nfile |-> e.nfile])
              /\ Created(e.f) /\ Res /\ PyDesc(e.h) /\ Mem /\ DiskMatches
Plainly == fl' = Looks(fl) /\ UNCHANGED <<ds, pk>>
TPOpen == IsEvent("pyopen") /\ Open(e.b, e.h) /\ Plainly /\ Res /\ PyDesc(e.h) /\ DiskMatches
TPDesc == IsEvent("pydesc") /\ HoldOn /\ reply' = Ok /\ Plainly /\ PyDesc(e.h) /\ DiskMatches

Rows == e.res = "ok" => Check("data", RowsEq(e.rows, reply'.rows), <<e.rows, "want", reply'.rows>>)
Shape(n, h) == e.res = "ok" => LET c == hnd[h]
                                   s == n \o RowShape(c.nmemb) IN
    \* a single number is in the byte order of the machine, a single string without its padding
    Check("data", e.shape = s /\ IF s = <<>> THEN DTypes[e.rdt].e = "<" /\ IF DTypes[c.dtype].k = "S" THEN DTypes[e.rdt].k = "S"
                                                                          ELSE DTypes[e.rdt].kw = DTypes[c.dtype].kw
                                 ELSE e.rdt = c.dtype, <<"shape and type", e.shape, e.rdt, "want", s, c.dtype>>)
TPGet == IsEvent("pyget") /\ PyGet(e.h, e.ix) /\ Plainly /\ Res /\ Rows
         /\ Shape(IF e.ix.k = "int" THEN <<>> ELSE <<Len(e.rows)>>, e.h) /\ DiskMatches
TPSet == IsEvent("pyset") /\ PySet(e.h, e.ix, e.mdt, e.rows, e.left) /\ Plainly /\ Res /\ Mem /\ DiskMatches
\* <<rows, width>> of the array that is read into; a read that fails half way may have changed it
Given == IF Has("out") THEN <<e.out, DTypes[IF Has("odt") THEN e.odt ELSE hnd[e.h].dtype].w>> ELSE <<>>
TPRead == IsEvent("pyread") /\ PyRead(e.h, e.start, e.n, Given) /\ Plainly /\ Res /\ Rows /\ Shape(<<Len(e.rows)>>, e.h) /\ DiskMatches
          /\ ((e.mem = "array changed" /\ e.res = "err" /\ Matches(hnd[e.h], e.start, e.n, Given)) \/ Mem)
TPWrite == IsEvent("pywrite") /\ PyWrite(e.h, e.start, e.mdt, e.rows, e.left) /\ Plainly /\ Res /\ Mem /\ DiskMatches
TPAppend == IsEvent("pyappend")
            /\ (\E g \in BOOLEAN : PyAppend(e.h, e.mdt, e.rows, e.left, e.nfile, g) /\ Plainly /\ DiskMatches)
            /\ Res /\ PyDesc(e.h) /\ Mem
TPFlush == IsEvent("pyflush") /\ Flush(e.h) /\ Plainly /\ Res /\ DiskMatches
\* a handle that is lost (its process ended) saves nothing
TPDrop == IsEvent("pydrop") /\ (IF "lost" \in DOMAIN e THEN Drop(e.h) ELSE Close(e.h)) /\ Plainly /\ DiskMatches
TPickle == IsEvent("pypickle") /\ HoldOn /\ reply' = Ok /\ fl' = Looks(fl) /\ UNCHANGED ds
           /\ pk' = SetKey(pk, e.p, PickleOf(e.h)) /\ Res /\ DiskMatches
TUnpickle == IsEvent("pyunpickle") /\ PyUnpickle(pk[e.p], e.h) /\ Plainly /\ Res /\ PyDesc(e.h) /\ DiskMatches

\* --- attributes
TPSetAttr == IsEvent("pysetattr") /\ PySetAttr(e.h, e.name, e.badname, e.v) /\ Plainly /\ Res /\ Mem /\ DiskMatches
SameValue(a, b) == a.k = b.k /\ CASE a.k = "str" -> a.s = b.s [] a.k = "strs" -> a.l = b.l
                                  [] OTHER -> a.dt = b.dt /\ a.n = b.n /\ a.raw = b.raw
TPGetAttr == IsEvent("pygetattr") /\ PyGetAttr(e.h, e.name) /\ Plainly /\ Res /\ DiskMatches
             /\ (e.res = "ok" => Check("attrs", SameValue(e.v, reply'.v), <<"attribute", e.name, e.v, "want", reply'.v>>))
TPDelAttr == IsEvent("pydelattr") /\ RemoveAttr(e.h, e.name) /\ Plainly /\ Res /\ DiskMatches
TPAttrs == IsEvent("pyattrs") /\ HoldOn /\ reply' = Ok /\ Plainly /\ Res /\ DiskMatches
           /\ LET w == SetToSortSeq(Keys(hnd[e.h].attrs), <) IN
              Check("attrs", e.names = w /\ e.has = [ i \in 1..Len(e.ask) |-> e.ask[i] \in Keys(hnd[e.h].attrs) ],
                    <<"names", e.names, e.has, "want", w>>)

\* --- datasets
TDataSet == IsEvent("dsopen") /\ HoldOn /\ fl' = Looks(fl) /\ UNCHANGED pk
            /\ LET cols == e.cols IN
               IF DataSetOk(cols) THEN reply' = Ok /\ ds' = SetKey(ds, e.d, DataSet(cols))
               ELSE reply' = Err /\ UNCHANGED ds
            /\ Res /\ DiskMatches
            /\ (e.res = "ok" => Check("hdr", e.size = ds'[e.d].size /\ e.fields = [ i \in 1..Len(e.cols) |->
                    <<e.cols[i], ds'[e.d].rt[i].dtype, ds'[e.d].rt[i].nmemb>> ], <<"dataset", e.size, e.fields>>))
TDsSize == IsEvent("dssize") /\ HoldOn /\ reply' = Ok /\ Plainly /\ DiskMatches
           /\ Check("hdr", e.size = ds[e.d].size /\ e.shape = <<ds[e.d].size>>, <<"dataset size", e.size, e.shape, "want", ds[e.d].size>>)
\* a selection of the fields (all, or those in cols), rows as selected by the index
Pick(d, cols) == [rt |-> [ i \in 1..Len(cols) |-> CHOOSE f \in { d.rt[j] : j \in 1..Len(d.rt) } : f.b = cols[i] ], size |-> d.size]
Vals == e.res = "ok" => \A i \in 1..Len(e.vals) : Check("data", RowsEq(e.vals[i], reply'.vals[i]), <<"field", i, e.vals[i], "want", reply'.vals[i]>>)
TDsGet == IsEvent("dsget") /\ DsGet(Pick(ds[e.d], e.cols), e.ix) /\ Plainly /\ Res /\ DiskMatches /\ Vals
          /\ (e.res = "ok" => Check("data", e.names = e.cols, <<"fields", e.names>>))
TDsSet == IsEvent("dsset")
          /\ (\E d \in SUBSET (1..Len(ds[e.d].rt)) : DsSet(ds[e.d], e.ix, e.vals, e.n, e.fits, d) /\ Plainly /\ DiskMatches)
          /\ Res /\ Mem
TDsAppend == IsEvent("dsappend") /\ DsAppend(ds[e.d], e.vals, e.n, e.nfile, e.fits) /\ fl' = Looks(fl) /\ UNCHANGED pk
             /\ ds' = (IF reply'.res = "ok" THEN [ds EXCEPT ![e.d].size = @ + e.n] ELSE ds)
             /\ Res /\ Mem /\ DiskMatches

PReset == TReset /\ fl' = <<>> /\ ds' = <<>> /\ pk' = <<>>
PyStep == TFile \/ TFCopy \/ TNames \/ THas \/ TPCreate \/ TFromArray \/ TPOpen \/ TPDesc \/ TPGet \/ TPSet \/ TPRead \/ TPWrite
    \/ TPAppend \/ TPFlush \/ TPDrop \/ TPickle \/ TUnpickle \/ TPSetAttr \/ TPGetAttr \/ TPDelAttr \/ TPAttrs
    \/ TDataSet \/ TDsSize \/ TDsGet \/ TDsSet \/ TDsAppend \/ (TNop /\ Plainly)
PyNext == (PReset /\ weak' = NoWeak) \/ (weak' = weak /\ PyStep)
PySpec == TraceInit /\ fl = <<>> /\ ds = <<>> /\ pk = <<>> /\ [][PyNext]_pyvars
=============================================================================
