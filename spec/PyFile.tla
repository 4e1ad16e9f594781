------------------------------- MODULE PyFile -------------------------------
(* The Python layer: columns are sequences of rows that are indexed, appended   *)
(* to, pickled and dropped; attributes are Python values; a dataset is a         *)
(* selection of columns of the same length, handled as records.  Every action    *)
(* is one expression or statement of the Python program.                         *)
EXTENDS Records, Slice

\* n rows over k files, as evenly as possible
EvenSplit(n, k) == [ i \in 1..k |-> (n * i) \div k - (n * (i - 1)) \div k ]
FilesOk(n, k) == n >= 0 /\ k >= 0 /\ (k = 0 => n = 0)
NoSums(k) == [ i \in 1..k |-> 0 ]
\* the number of elements of each row, as numpy sees it: rows of one element are scalars
RowShape(nmemb) == IF nmemb = 1 THEN <<>> ELSE <<nmemb>>

HoldOn == UNCHANGED <<disk, hnd>>
Refuse == reply' = Err /\ HoldOn

\* --- creating ------------------------------------------------------------------
\* a: [b, h, dtype, nmemb, size, nfile]
PyCreate(a) ==
    IF ~IsMeta(a.b) /\ ~FilesOk(a.size, a.nfile) THEN Refuse
    ELSE Create([b |-> a.b, h |-> a.h, dtype |-> a.dtype, nmemb |-> a.nmemb, badname |-> FALSE,
                 fsize |-> IF IsMeta(a.b) THEN <<>> ELSE EvenSplit(a.size, a.nfile)])

\* from an array in memory, written piece by piece, saved and opened again
\* nfile: <<>> (as many as there have to be: one, if there are any rows) or <<k>>
PyFromArray(a) ==
    LET n == Len(a.rows)
        k == IF a.nfile = <<>> THEN (IF n = 0 THEN 0 ELSE 1) ELSE a.nfile[1]
    IN  IF ~FilesOk(n, k) \/ ~Known(a.dtype) THEN Refuse
        ELSE LET c == WrittenCol(NewCol([dtype |-> a.dtype, nmemb |-> a.nmemb], EvenSplit(n, k)), 0, a.rows) IN
             /\ disk' = SetKey(disk, a.b, c)
             /\ hnd' = SetKey(hnd, a.h, HandleOf(a.b, c))
             /\ reply' = Ok

\* --- rows ----------------------------------------------------------------------
\* reading rows [s, s + n) through the description handle c has
RowsThrough(c, s, n) ==
    IF n = 0 THEN [res |-> "ok", rows |-> <<>>]
    ELSE IF Covers(disk[c.b].data, c.fsize, s, n)
         THEN [res |-> "ok", rows |-> GetRows(disk[c.b].data, c.fsize, s, n)] ELSE Err

PyGet(h, ix) ==
    LET c == hnd[h]
        s == Select(ix, Size(c))
    IN  reply' = (IF s.ok THEN RowsThrough(c, s.lo, s.n) ELSE Err) /\ HoldOn

\* storing rows at row s of handle h (the range is known to fit)
StoreAt(h, s, rows) ==
    LET c == [hnd[h] EXCEPT !.pos = s]
        b == c.b
    IN  /\ disk' = [disk EXCEPT ![b].data = PutRows(@, c.fsize, s, rows),
                                ![b].wr = [ i \in 1..Len(@) |->
                                    IF i <= Len(c.fsize) THEN @[i] \cup Touched(c.fsize, i, s, Len(rows)) ELSE @[i] ]]
        /\ hnd' = [hnd EXCEPT ![h].sum = NewSums(c, disk[b].wr, rows), ![h].hd = TRUE]
        /\ reply' = Ok

\* rows: the value, cut into rows; left: elements that do not make up a row
PySet(h, ix, mdt, rows, left) ==
    LET c == hnd[h]
        s == Select(ix, Size(c))
    IN  IF ~s.ok \/ left # 0 \/ Len(rows) # s.n THEN Refuse
        ELSE IF s.n = 0 THEN reply' = Ok /\ HoldOn
        ELSE IF ~Known(mdt) \/ ~Convertible(mdt, c.dtype) THEN Refuse
        ELSE StoreAt(h, s.lo, rows)

\* the methods that take a first row: from the end when negative; n = -1 is all that follow,
\* and rows beyond the end are not read
\* (into an array given by the caller, which has to be of as many rows and elements as wide)
Asked(c, start, n) == IF n = -1 \/ start + n > Size(c) THEN Size(c) - start ELSE n
Matches(c, start, n, out) == out # <<>> => out[1] = Asked(c, start, n) /\ out[2] = DTypes[c.dtype].w
PyRead(h, start, n, out) ==
    LET c == hnd[h]
        s == Start(c, start)
        m == Asked(c, start, n)
    IN  /\ reply' = (IF Matches(c, start, n, out) /\ s >= 0 /\ m >= 0 /\ s + m <= Size(c) THEN RowsThrough(c, s, m) ELSE Err)
        /\ HoldOn
PyWrite(h, start, mdt, rows, left) ==
    LET c == hnd[h]
        s == Start(c, start)
    IN  IF s < 0 \/ s > Size(c) \/ s + Len(rows) > Size(c) \/ left # 0 THEN Refuse
        ELSE IF rows = <<>> THEN reply' = Ok /\ HoldOn
        ELSE IF ~Known(mdt) \/ ~Convertible(mdt, c.dtype) THEN Refuse
        ELSE StoreAt(h, s, rows)

\* growing by new files for the rows, saving that, and storing them.  Rows that cannot be
\* converted are refused; the column may have grown by then (grown)
PyAppend(h, mdt, rows, left, k, grown) ==
    LET c == hnd[h]
        b == c.b
        n == Len(rows)
        fs == EvenSplit(n, k)
        bad == n > 0 /\ (~Known(mdt) \/ ~Convertible(mdt, c.dtype))
        \* the handle after growing and saving, and the column then
        c1 == [c EXCEPT !.fsize = @ \o fs, !.sum = @ \o NoSums(k), !.hd = FALSE, !.ad = FALSE, !.pos = Size(c)]
        g == GrownCol([disk[b] EXCEPT !.fsize = c.fsize, !.sum = c.sum], fs)
        d1 == [g EXCEPT !.dtype = c.dtype, !.nmemb = c.nmemb, !.attrs = IF c.ad THEN c.attrs ELSE @]
    IN  IF ~FilesOk(n, k) \/ left # 0 \/ IsMeta(b) THEN Refuse
        ELSE IF bad /\ ~grown THEN Refuse
        ELSE IF bad \/ n = 0 THEN /\ disk' = [disk EXCEPT ![b] = d1] /\ hnd' = [hnd EXCEPT ![h] = c1]
                                  /\ reply' = IF bad THEN Err ELSE Ok
        ELSE /\ disk' = [disk EXCEPT ![b] = [d1 EXCEPT !.data = PutRows(@, c1.fsize, c1.pos, rows),
                            !.wr = [ i \in 1..Len(@) |-> IF i <= Len(c1.fsize)
                                        THEN @[i] \cup Touched(c1.fsize, i, c1.pos, n) ELSE @[i] ]]]
             /\ hnd' = [hnd EXCEPT ![h] = [c1 EXCEPT !.sum = NewSums(c1, d1.wr, rows), !.hd = TRUE]]
             /\ reply' = Ok

\* --- copies --------------------------------------------------------------------
\* a pickle is what the handle knows, and so is the column made from it
PickleOf(h) == [hnd[h] EXCEPT !.pos = 0]
PyUnpickle(c, h) == hnd' = SetKey(hnd, h, c) /\ reply' = Ok /\ UNCHANGED disk

\* --- attributes ----------------------------------------------------------------
(* A Python value is [k |-> "str", s], the bytes of a string; [k |-> "strs", l],   *)
(* a list of strings; or [k |-> "arr", dt, n, raw], numbers.                       *)
Padded(s, w) == [ i \in 1..w |-> IF i <= Len(s) THEN s[i] ELSE 0 ]
MaxLen(l) == FoldLeft(LAMBDA m, s : Max2(m, Len(s)), 1, l)
StrType(w) == CHOOSE d \in DOMAIN DTypes : DTypes[d].e = "<" /\ DTypes[d].k = "S" /\ DTypes[d].w = w
Stored(v) ==
    CASE v.k = "str" -> [dt |-> "<a1", n |-> Len(v.s), raw |-> v.s, vals |-> <<>>]
      [] v.k = "strs" -> [dt |-> StrType(MaxLen(v.l)), n |-> Len(v.l), vals |-> <<>>,
                          raw |-> FoldLeft(LAMBDA acc, s : acc \o Padded(s, MaxLen(v.l)), <<>>, v.l)]
      [] OTHER -> [dt |-> v.dt, n |-> v.n, raw |-> v.raw, vals |-> <<>>]
\* zeros at the end of an element are padding
Stripped(s) == LET k == FoldLeft(LAMBDA m, i : IF s[i] # 0 THEN i ELSE m, 0, [ i \in 1..Len(s) |-> i ]) IN SubSeq(s, 1, k)
Shown(v) ==
    LET w == DTypes[v.dt].w IN
    CASE DTypes[v.dt].k = "a" -> [k |-> "str", s |-> v.raw]
      [] DTypes[v.dt].k = "S" -> [k |-> "strs", l |-> [ i \in 1..v.n |-> Stripped(SubSeq(v.raw, (i - 1) * w + 1, i * w)) ]]
      [] OTHER -> [k |-> "arr", dt |-> v.dt, n |-> v.n, raw |-> v.raw]

PySetAttr(h, name, badname, v) == SetAttr(h, name, badname, Stored(v))
PyGetAttr(h, name) ==
    /\ HoldOn
    /\ reply' = IF name \in Keys(hnd[h].attrs) THEN [res |-> "ok", v |-> Shown(hnd[h].attrs[name])] ELSE Err

\* --- datasets ------------------------------------------------------------------
\* the dataset of the columns cols of a file; refused when their sizes differ
DataSet(cols) == [rt |-> [ i \in 1..Len(cols) |-> [b |-> cols[i], dtype |-> disk[cols[i]].dtype, nmemb |-> disk[cols[i]].nmemb] ],
                  size |-> Size(disk[cols[1]])]
DataSetOk(cols) == cols # <<>> /\ (\A i \in 1..Len(cols) : IsCol(cols[i]))
                   /\ \A i \in 1..Len(cols) : Size(disk[cols[i]]) = Size(disk[cols[1]])
DsGet(ds, ix) ==
    LET s == Select(ix, ds.size) IN
    IF ~s.ok THEN Refuse ELSE RecRead(ds.rt, s.lo, s.n)
DsSet(ds, ix, vals, n, fits, done) ==
    LET s == Select(ix, ds.size) IN
    IF ~s.ok \/ ~fits \/ n # s.n THEN Refuse ELSE RecWrite(ds.rt, s.lo, vals, n, done)
\* appended rows come after those the dataset had, in new files of every column
DsAppend(ds, vals, n, k, fits) ==
    /\ UNCHANGED hnd
    /\ IF ~fits \/ ~FilesOk(n, k) THEN reply' = Err /\ UNCHANGED disk
       ELSE /\ Effect(ds.rt, 1..Len(ds.rt),
                      LAMBDA i : WrittenCol(GrownCol(disk[ds.rt[i].b], EvenSplit(n, k)), ds.size, vals[i]))
            /\ reply' = Ok
=============================================================================
