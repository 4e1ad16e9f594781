------------------------------ MODULE BigFile ------------------------------
(* The abstract machine of a bigfile: what is on disk, what each open handle   *)
(* knows, and what every call does to both.  One action per public call of the *)
(* serial library; the return of the call is the linearisation point.          *)
(*                                                                             *)
(* A column ("block") is named by a path, a non-empty sequence of component    *)
(* ids.  A path that ends in component 0 denotes the meta block of a directory *)
(* (the name "."), which has attributes but no data.  Components >= 1000 are   *)
(* hidden names (they start with a dot).                                       *)
EXTENDS Convert

VARIABLES
    disk,    \* path -> what is on disk for it
    hnd,     \* handle id -> what an open handle knows
    reply    \* outcome of the last call: [res, ...]; observation only

vars == <<disk, hnd, reply>>

Ok  == [res |-> "ok"]
Err == [res |-> "err"]

IsMeta(b) == b[Len(b)] = 0
Unknown == -1          \* a checksum the specification does not determine

-----------------------------------------------------------------------------
(* Striping: a column of the given file sizes is one sequence of rows. *)
Sum(fs) == SumSeq(fs)
\* number of rows before file i (1-based)
Before(fs, i) == SumSeq(SubSeq(fs, 1, i - 1))
Size(c) == Sum(c.fsize)

ZeroRow(nmemb) == [ k \in 1..nmemb |-> 0 ]
\* stored rows are compared as values; a hole is the all-zero *bytes*, which is
\* value 0 for numbers and handled as the special row Hole otherwise.
Hole == <<>>
\* a row of which only a part is there (left by a failed write at the end of a file)
Torn(nmemb) == [ k \in 1..nmemb |-> 99997 ]
IsTorn(r) == r # Hole /\ r[1] = 99997

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* rows [pos, pos+n) (0-based, absolute) restricted to file i, as 0-based [lo, hi) in the file
Cut(fs, i, pos, n) ==
    LET o == Before(fs, i) IN
    [lo |-> Max2(0, pos - o), hi |-> Min2(fs[i], pos + n - o), off |-> o]

\* contents of the files after writing rows at absolute row pos
PutRows(data, fs, pos, rows) ==
    [ i \in 1..Len(data) |->
        IF i > Len(fs) THEN data[i]
        ELSE LET c == Cut(fs, i, pos, Len(rows)) IN
             IF c.lo >= c.hi THEN data[i]
             ELSE [ k \in 1..Max2(Len(data[i]), c.hi) |->
                      IF k > c.lo /\ k <= c.hi THEN rows[c.off + k - pos]
                      ELSE IF k <= Len(data[i]) THEN data[i][k] ELSE Hole ] ]

\* which file, and which row in it (0-based), holds absolute row a
FileOf(fs, a) == CHOOSE i \in 1..Len(fs) : Before(fs, i) <= a /\ a < Before(fs, i) + fs[i]
Covered(data, fs, a) ==
    LET i == FileOf(fs, a)
        k == a - Before(fs, i) + 1 IN
       k < Len(data[i]) \/ (k = Len(data[i]) /\ ~IsTorn(data[i][k]))
RowAt(data, fs, a) ==
    LET i == FileOf(fs, a) IN data[i][a - Before(fs, i) + 1]
Covers(data, fs, pos, n) == \A a \in pos..(pos + n - 1) : Covered(data, fs, a)
GetRows(data, fs, pos, n) == [ k \in 1..n |-> RowAt(data, fs, pos + k - 1) ]

\* rows of file i that a write touches
Touched(fs, i, pos, n) == LET c == Cut(fs, i, pos, n) IN (c.lo + 1)..c.hi

NewSums(c, wr, rows) ==
    [ i \in 1..Len(c.fsize) |->
        LET t == Touched(c.fsize, i, c.pos, Len(rows)) IN
        IF t = {} THEN c.sum[i]
        ELSE IF c.sum[i] = Unknown \/ t \cap wr[i] /= {} THEN Unknown
        ELSE LET o == Before(c.fsize, i) - c.pos IN
             c.sum[i] + FoldLeft(LAMBDA acc, k : acc + ByteSumSeq(c.dtype, rows[o + k]),
                                 0, SetToSortSeq(t, <)) ]

-----------------------------------------------------------------------------
(* Attributes: a map from name id to [dt, n, raw].  raw: the bytes of the value *)
(* in the byte order of dt.                                                    *)
NoAttrs == <<>>        \* the function with empty domain
SetKey(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
DelKey(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]
Keys(f) == DOMAIN f

-----------------------------------------------------------------------------
Blocks == { b \in DOMAIN disk : ~IsMeta(b) }

EmptyMeta == [dtype |-> "####", nmemb |-> 0, fsize |-> <<>>, sum |-> <<>>,
              attrs |-> NoAttrs, data |-> <<>>, wr |-> <<>>]

HandleOf(b, c) == [b |-> b, dtype |-> c.dtype, nmemb |-> c.nmemb, fsize |-> c.fsize,
                   sum |-> c.sum, attrs |-> c.attrs, pos |-> 0, hd |-> FALSE, ad |-> FALSE]

Init == disk = <<>> /\ hnd = <<>> /\ reply = Ok

\* --- namespace ---------------------------------------------------------------
CreateOk(a) == ~a.badname /\ (IsMeta(a.b) \/ a.dtype = "none" \/ (Known(a.dtype) /\ DTypes[a.dtype].k # "a" /\ a.nmemb >= 0))

\* a: [b, h, dtype, nmemb, fsize, badname]; a column without a type has no files
Create(a0) ==
    LET a == IF a0.dtype = "none" THEN [a0 EXCEPT !.dtype = "<i8", !.fsize = <<>>] ELSE a0 IN
    IF CreateOk(a) THEN
        LET n == Len(a.fsize)
            c == IF IsMeta(a.b) THEN EmptyMeta
                 ELSE [dtype |-> a.dtype, nmemb |-> a.nmemb, fsize |-> a.fsize,
                       sum |-> [ i \in 1..n |-> 0 ], attrs |-> NoAttrs,
                       data |-> [ i \in 1..n |-> <<>> ], wr |-> [ i \in 1..n |-> {} ]]
        IN  /\ disk' = SetKey(disk, a.b, c)
            /\ hnd' = SetKey(hnd, a.h, HandleOf(a.b, c))
            /\ reply' = Ok
    ELSE reply' = Err /\ UNCHANGED <<disk, hnd>>

Open(b, h) ==
    IF b \in DOMAIN disk \/ IsMeta(b)
    THEN /\ hnd' = SetKey(hnd, h, HandleOf(b, IF b \in DOMAIN disk THEN disk[b] ELSE EmptyMeta))
         /\ reply' = Ok
         /\ UNCHANGED disk
    ELSE reply' = Err /\ UNCHANGED <<disk, hnd>>

Hidden(b) == \E i \in 1..Len(b) : b[i] >= 1000
Inside(p, b) == Len(b) > Len(p) /\ SubSeq(b, 1, Len(p)) = p
\* columns below directory p (<<>> is the file itself), not inside another column, not hidden
Listing(p) == { b \in Blocks : /\ Inside(p, b)
                               /\ ~Hidden(SubSeq(b, Len(p) + 1, Len(b)))
                               /\ \A q \in Blocks : Inside(p, q) => ~Inside(q, b) }
List(p) == reply' = [res |-> "ok", names |-> Listing(p)] /\ UNCHANGED <<disk, hnd>>

\* --- saving ------------------------------------------------------------------
Saved(c) ==     \* disk after handle c saves what it changed
    LET b == c.b
        d == IF b \in DOMAIN disk THEN disk[b] ELSE EmptyMeta
        d1 == IF c.hd /\ ~IsMeta(b)
              THEN [d EXCEPT !.dtype = c.dtype, !.nmemb = c.nmemb, !.fsize = c.fsize, !.sum = c.sum]
              ELSE d
        d2 == IF c.ad THEN [d1 EXCEPT !.attrs = c.attrs] ELSE d1
    IN  IF c.hd \/ c.ad THEN SetKey(disk, b, d2) ELSE disk

Flush(h) ==
    /\ disk' = Saved(hnd[h])
    /\ hnd' = [hnd EXCEPT ![h].hd = FALSE, ![h].ad = FALSE]
    /\ reply' = Ok

Close(h) ==
    /\ disk' = Saved(hnd[h])
    /\ hnd' = DelKey(hnd, h)
    /\ reply' = Ok

\* the handle disappears without saving (process death, or a dropped copy)
Drop(h) == hnd' = DelKey(hnd, h) /\ reply' = Ok /\ UNCHANGED disk

Grow(h, sizes) ==
    LET c == hnd[h]
        n0 == Len(c.fsize)
        d == disk[c.b]
        n == n0 + Len(sizes)
    IN  /\ hnd' = [hnd EXCEPT ![h].fsize = c.fsize \o sizes,
                              ![h].sum = c.sum \o [ i \in 1..Len(sizes) |-> 0 ],
                              ![h].hd = TRUE]
        /\ disk' = [disk EXCEPT ![c.b].data =
                        [ i \in 1..Max2(n, Len(d.data)) |->
                            IF i > n0 /\ i <= n THEN <<>> ELSE d.data[i] ],
                                ![c.b].wr =
                        [ i \in 1..Max2(n, Len(d.data)) |->
                            IF i > n0 /\ i <= n THEN {} ELSE d.wr[i] ]]
        /\ reply' = Ok

\* --- position ----------------------------------------------------------------
SeekTo(h, p) ==
    IF p >= 0 /\ p <= Size(hnd[h])
    THEN hnd' = [hnd EXCEPT ![h].pos = p] /\ reply' = Ok /\ UNCHANGED disk
    ELSE reply' = Err /\ UNCHANGED <<disk, hnd>>
Seek(h, off) == SeekTo(h, IF off < 0 THEN off + Size(hnd[h]) ELSE off)
SeekRel(h, rel) == SeekTo(h, hnd[h].pos + rel)
Eof(h) == reply' = [res |-> "ok", eof |-> hnd[h].pos >= Size(hnd[h])] /\ UNCHANGED <<disk, hnd>>

\* --- data --------------------------------------------------------------------
WriteOk(c, mdt, n) == c.pos + n <= Size(c) /\ Known(mdt) /\ Convertible(mdt, c.dtype)

\* mdt: type in memory; rows: the rows described by the view, in C order
Write(h, mdt, rows) ==
    LET c == hnd[h]
        b == c.b
        n == Len(rows)
    IN  IF n = 0 THEN reply' = Ok /\ UNCHANGED <<disk, hnd>>
        ELSE IF WriteOk(c, mdt, n) THEN
            /\ disk' = [disk EXCEPT ![b].data = PutRows(@, c.fsize, c.pos, rows),
                                    ![b].wr = [ i \in 1..Len(@) |->
                                        IF i <= Len(c.fsize)
                                        THEN @[i] \cup Touched(c.fsize, i, c.pos, n)
                                        ELSE @[i] ]]
            /\ hnd' = [hnd EXCEPT ![h].pos = c.pos + n,
                                  ![h].sum = NewSums(c, disk[b].wr, rows),
                                  ![h].hd = TRUE]
            /\ reply' = Ok
        ELSE reply' = Err /\ UNCHANGED <<disk, hnd>>

ReadOk(c, mdt, n) ==
    /\ c.pos + n <= Size(c)
    /\ Covers(disk[c.b].data, c.fsize, c.pos, n)
    /\ n > 0 => (Known(mdt) /\ Convertible(c.dtype, mdt))

\* a column whose files end early fails somewhere in the middle: the position q is then open
Read(h, mdt, n, q) ==
    LET c == hnd[h] IN
    IF ReadOk(c, mdt, n)
    THEN /\ reply' = [res |-> "ok", rows |-> GetRows(disk[c.b].data, c.fsize, c.pos, n)]
         /\ hnd' = [hnd EXCEPT ![h].pos = c.pos + n]
         /\ UNCHANGED disk
    ELSE /\ reply' = Err
         /\ UNCHANGED disk
         /\ IF c.pos + n > Size(c) \/ ~Known(mdt) \/ ~Convertible(c.dtype, mdt) THEN UNCHANGED hnd
            ELSE q \in c.pos..(c.pos + n) /\ hnd' = [hnd EXCEPT ![h].pos = q]

\* a transfer of more rows than the column has, wherever it starts
Overlong(h) == reply' = Err /\ UNCHANGED <<disk, hnd>>

\* read up to n rows from row start into fresh memory
ReadSimple(h, start, n, mdt) ==
    LET c == hnd[h]
        s == IF start < 0 THEN start + Size(c) ELSE start
        m == IF s + n > Size(c) THEN Size(c) - s ELSE n
    IN  /\ UNCHANGED <<disk, hnd>>
        /\ IF s >= 0 /\ s <= Size(c) /\ n >= 0 /\ Covers(disk[c.b].data, c.fsize, s, m)
              /\ (m > 0 => (Known(mdt) /\ Convertible(c.dtype, mdt)))
           THEN reply' = [res |-> "ok", rows |-> GetRows(disk[c.b].data, c.fsize, s, m)]
           ELSE reply' = Err

\* --- attributes --------------------------------------------------------------
SetAttr(h, name, badname, v) ==
    IF badname THEN reply' = Err /\ UNCHANGED <<disk, hnd>>
    ELSE /\ hnd' = [hnd EXCEPT ![h].attrs = SetKey(@, name, v), ![h].ad = TRUE]
         /\ reply' = Ok /\ UNCHANGED disk

RemoveAttr(h, name) ==
    IF name \in Keys(hnd[h].attrs)
    THEN /\ hnd' = [hnd EXCEPT ![h].attrs = DelKey(@, name), ![h].ad = TRUE]
         /\ reply' = Ok /\ UNCHANGED disk
    ELSE reply' = Err /\ UNCHANGED <<disk, hnd>>

\* element k (1-based) of attribute v, and what it is as type d
Element(v, k) == SubSeq(v.raw, (k - 1) * DTypes[v.dt].w + 1, k * DTypes[v.dt].w)
AsType(v, d) == [ k \in 1..v.n |-> IF Determined(v.dt, d, Element(v, k)) THEN ConvertElement(v.dt, d, Element(v, k))
                                   ELSE <<>> ]

GetAttr(h, name, d, n) ==
    /\ UNCHANGED <<disk, hnd>>
    /\ IF name \in Keys(hnd[h].attrs) /\ hnd[h].attrs[name].n = n
          /\ Known(d) /\ Convertible(hnd[h].attrs[name].dt, d)
       THEN reply' = [res |-> "ok", elements |-> AsType(hnd[h].attrs[name], d)]
       ELSE reply' = Err

LookupAttr(h, name) ==
    /\ UNCHANGED <<disk, hnd>>
    /\ reply' = IF name \in Keys(hnd[h].attrs)
                THEN [res |-> "ok", found |-> TRUE, v |-> hnd[h].attrs[name]]
                ELSE [res |-> "ok", found |-> FALSE]

AttrList(c) == [ i \in 1..Cardinality(Keys(c.attrs)) |->
                   LET k == SetToSortSeq(Keys(c.attrs), <)[i] IN <<k, c.attrs[k]>> ]
ListAttrs(h) == reply' = [res |-> "ok", list |-> AttrList(hnd[h])] /\ UNCHANGED <<disk, hnd>>

Describe(h) == reply' = [res |-> "ok", desc |-> [dtype |-> hnd[h].dtype, nmemb |-> hnd[h].nmemb,
                              fsize |-> hnd[h].fsize, size |-> Size(hnd[h])]]
               /\ UNCHANGED <<disk, hnd>>
=============================================================================
