------------------------------- MODULE Tools -------------------------------
(* The command-line tools.  A tool is one action on what is on disk: it knows  *)
(* no handles, and its exit status is its result.  Copying, repartitioning,    *)
(* renaming, removing and sampling make or move columns; ls, cat, get-attr and *)
(* check report on them; set-attr and create fill them.                        *)
EXTENDS BigFile

VARIABLE
    dmg      \* column -> damage done to its files behind the library's back:
             \* [delta: what its bytes now add up to more, lost: some are missing]

-----------------------------------------------------------------------------
(* Rows of a whole column, and the column that holds given rows *)
Readable(c) == c.nmemb = 0 \/ Covers(c.data, c.fsize, 0, Size(c))
RowsOf(c) == IF c.nmemb = 0 THEN <<>> ELSE GetRows(c.data, c.fsize, 0, Size(c))
Even(size, n) == [ i \in 1..n |-> (size * i) \div n - (size * (i - 1)) \div n ]
RowBytes(d, rows) == FoldLeft(LAMBDA acc, r : acc + IF r = Hole THEN 0 ELSE ByteSumSeq(d, r), 0, rows)
Dealt(c, rows, fs) == [ i \in 1..Len(fs) |-> IF c.nmemb = 0 THEN <<>> ELSE SubSeq(rows, Before(fs, i) + 1, Before(fs, i) + fs[i]) ]
\* a column like c, with these rows in files of these sizes
Holding(c, rows, fs) ==
    LET d == Dealt(c, rows, fs) IN
    [dtype |-> c.dtype, nmemb |-> c.nmemb, fsize |-> fs, sum |-> [ i \in 1..Len(fs) |-> RowBytes(c.dtype, d[i]) ],
     attrs |-> c.attrs, data |-> d, wr |-> [ i \in 1..Len(fs) |-> 1..Len(d[i]) ]]

Exists(b) == b \in DOMAIN disk
At(b) == IF Exists(b) THEN disk[b] ELSE EmptyMeta        \* the meta block of a directory is always there

\* --- copying -----------------------------------------------------------------
\* numbers of files a copy of c may be asked for with n (-1: nothing said)
FilesFor(c, n) == IF n = -1 THEN {Len(c.fsize)} ELSE IF Len(c.fsize) = 0 THEN {0, n} ELSE {n}
CopyTo(c, m) == IF c.dtype = "####" THEN [EmptyMeta EXCEPT !.attrs = c.attrs] ELSE Holding(c, RowsOf(c), Even(Size(c), m))
CopyAllowed(src, dst, n) ==
    /\ Exists(src) \/ IsMeta(src)
    /\ src # dst
    /\ \E m \in FilesFor(At(src), n) : m > 0 \/ (m = 0 /\ Size(At(src)) = 0)
Copied(src, dst, n, m) == /\ m \in FilesFor(At(src), n)
                          /\ disk' = SetKey(disk, dst, CopyTo(At(src), m))

\* --- sampling ----------------------------------------------------------------
\* rows in the order of the column, none of them twice.  Where in the column a greedy match finds them:
Places(want, rows, Eq(_, _)) ==
    FoldLeft(LAMBDA acc, k : IF Len(acc) < Len(want) /\ Eq(want[Len(acc) + 1], rows[k]) THEN Append(acc, k) ELSE acc,
             <<>>, [ k \in 1..Len(rows) |-> k ])
IsSample(want, rows, Eq(_, _)) == Len(Places(want, rows, Eq)) = Len(want)
Sampled(src, dst, n, m, places) ==
    LET c == disk[src]
        r == RowsOf(c)
    IN  /\ m \in FilesFor(c, n)
        /\ disk' = SetKey(disk, dst, Holding(c, [ i \in 1..Len(places) |-> r[places[i]] ], Even(Len(places), m)))

\* --- moving ------------------------------------------------------------------
Under(b) == { z \in DOMAIN disk : z = b \/ Inside(b, z) }
Moved(b, d) == LET U == Under(b)
                   to(z) == d \o SubSeq(z, Len(b) + 1, Len(z))
               IN  [ y \in (DOMAIN disk \ U) \cup { to(z) : z \in U } |->
                       IF \E z \in U : to(z) = y THEN disk[CHOOSE z \in U : to(z) = y] ELSE disk[y] ]
Without(S) == [ y \in DOMAIN disk \ S |-> disk[y] ]

\* --- repartitioning ----------------------------------------------------------
RepartAllowed(b, n) == Exists(b) /\ (n > 0 \/ n = -1 \/ (n = 0 /\ Size(disk[b]) = 0)) /\ Readable(disk[b])
\* ms: column -> number of files
Reparted(ms) == disk' = [ y \in DOMAIN disk |-> IF y \in DOMAIN ms THEN CopyTo(disk[y], ms[y]) ELSE disk[y] ]

\* --- looking -----------------------------------------------------------------
\* every column below p, in columns too, that is not hidden
Everything(p) == { b \in Blocks : Inside(p, b) /\ ~Hidden(SubSeq(b, Len(p) + 1, Len(b))) }
\* the two-byte sum of `sum -s`
Fold16(s) == LET r == (s % 65536) + (s \div 65536) IN (r % 65536) + (r \div 65536)
Recorded(c) == IF \E i \in 1..Len(c.sum) : c.sum[i] = Unknown THEN Unknown ELSE Fold16(SumSeq(c.sum))
RowRange(c, off, cnt) ==
    LET lo == Min2(off, Size(c))
        hi == IF cnt = -1 THEN Size(c) ELSE Min2(off + cnt, Size(c))
    IN  [lo |-> lo, n |-> IF hi > lo THEN hi - lo ELSE 0]

\* --- checking ----------------------------------------------------------------
Damage(b) == IF b \in DOMAIN dmg THEN dmg[b] ELSE [delta |-> 0, lost |-> FALSE]
InFiles(c) == FoldLeft(LAMBDA acc, i : acc + RowBytes(c.dtype, SubSeq(c.data[i], 1, Min2(c.fsize[i], Len(c.data[i])))),
                       0, [ i \in 1..Len(c.fsize) |-> i ])
\* "ok", "bad", or "open" if the specification does not know the recorded sum
Verdict(b) ==
    LET c == disk[b] IN
    IF Damage(b).lost \/ ~Readable(c) THEN "bad"
    ELSE IF Recorded(c) = Unknown THEN "open"
    ELSE IF Recorded(c) = Fold16(InFiles(c) + Damage(b).delta) THEN "ok" ELSE "bad"

\* --- attributes --------------------------------------------------------------
\* arguments of set-attr: the type (or "" ), the number of values asked for (0: none), force
Base(c, name, force) == IF ~force /\ name \in DOMAIN c.attrs THEN c.attrs[name] ELSE [dt |-> "", n |-> 0, raw |-> <<>>]
SetType(c, name, dt, force) == IF dt # "" THEN dt ELSE Base(c, name, force).dt
SetCount(c, name, n, force, given) == IF n > 0 THEN n ELSE IF Base(c, name, force).dt # "" /\ Base(c, name, force).n > 0 THEN Base(c, name, force).n ELSE given
SetAllowed(b, name, dt, n, force, given) ==
    /\ Exists(b) \/ IsMeta(b)
    /\ n >= 0
    /\ SetType(At(b), name, dt, force) # "" /\ Known(SetType(At(b), name, dt, force))
    /\ SetCount(At(b), name, n, force, given) = given
AttrSet(b, name, v) == disk' = SetKey(disk, b, [At(b) EXCEPT !.attrs = SetKey(@, name, v)])
=============================================================================
