------------------------------- MODULE PyMpi -------------------------------
(* The Python layer on several ranks: every rank has its own object of a shared  *)
(* column (handle 10 * h + rank), and the collective calls bring them together.  *)
(* Ranks write, read and set attributes on their own in between; checksums are   *)
(* counted on every rank and summed up when the column is saved.                 *)
EXTENDS PyFile

Hr(h, r) == 10 * h + r
Ranks(N) == 0..(N - 1)
Objects(h, N) == { Hr(h, r) : r \in Ranks(N) }
\* one rank keeps the checksums that are recorded already
Member(c, r) == IF r = 0 THEN c ELSE [c EXCEPT !.sum = NoSums(Len(c.sum))]
SetAll(f, h, N, c) == [ k \in DOMAIN f \cup Objects(h, N) |-> IF k \in Objects(h, N) THEN Member(c, k - 10 * h) ELSE f[k] ]
DelAll(f, h, N) == [ k \in DOMAIN f \ Objects(h, N) |-> f[k] ]

NewColumn(a) == IF IsMeta(a.b) THEN EmptyMeta ELSE NewCol([dtype |-> a.dtype, nmemb |-> a.nmemb], EvenSplit(a.size, a.nfile))
\* a: [b, h, dtype, nmemb, size, nfile]; the names must be the same everywhere
MCreateOk(a) == a.agree /\ (IsMeta(a.b) \/ (FilesOk(a.size, a.nfile) /\ Known(a.dtype)))
MCreate(a, N) ==
    IF ~MCreateOk(a) THEN Refuse
    ELSE LET c == NewColumn(a) IN
         /\ disk' = SetKey(disk, a.b, c)
         /\ hnd' = SetAll(hnd, a.h, N, HandleOf(a.b, c))
         /\ reply' = Ok
\* the rows of all ranks, one after the other
AllRows(parts) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, parts)
MFromArray(a, N) ==
    LET rows == AllRows(a.parts)
        n == Len(rows)
        k == IF a.nfile = <<>> THEN (IF n = 0 THEN 0 ELSE 1) ELSE a.nfile[1]
    IN  IF ~FilesOk(n, k) \/ ~Known(a.dtype) THEN Refuse
        ELSE LET c == WrittenCol(NewCol([dtype |-> a.dtype, nmemb |-> a.nmemb], EvenSplit(n, k)), 0, rows) IN
             /\ disk' = SetKey(disk, a.b, c)
             /\ hnd' = SetAll(hnd, a.h, N, HandleOf(a.b, c))
             /\ reply' = Ok
MOpen(b, h, agree, N) ==
    IF agree /\ (b \in DOMAIN disk \/ IsMeta(b))
    THEN /\ hnd' = SetAll(hnd, h, N, HandleOf(b, IF b \in DOMAIN disk THEN disk[b] ELSE EmptyMeta))
         /\ reply' = Ok /\ UNCHANGED disk
    ELSE Refuse

\* what one process that had done it all would hold: the description and attributes of the first
\* rank, and the checksums of everybody
SumUp(h, N) ==
    LET c == hnd[Hr(h, 0)]
        T(i) == IF \E r \in Ranks(N) : hnd[Hr(h, r)].sum[i] = Unknown THEN Unknown
                ELSE FoldLeft(LAMBDA acc, r : acc + hnd[Hr(h, r - 1)].sum[i], 0, [ r \in 1..N |-> r ])
    IN  [c EXCEPT !.sum = [ i \in 1..Len(c.fsize) |-> T(i) ],
                  !.hd = \E r \in Ranks(N) : hnd[Hr(h, r)].hd, !.pos = 0]
MFlush(h, N) ==
    LET c == SumUp(h, N) IN
    /\ disk' = Saved(c)
    /\ hnd' = SetAll(hnd, h, N, [c EXCEPT !.hd = FALSE, !.ad = FALSE])
    /\ reply' = Ok
\* a save that failed: it may be tried again
MFlushFailed(h, N) ==
    /\ hnd' = SetAll(hnd, h, N, SumUp(h, N)) /\ UNCHANGED disk /\ reply' = Err
\* every rank calls it, the first one with the rows
\* (wrote: and has stored them by the time of the event; else that is a step of its own)
MAppend(h, N, rows, k, wrote) ==
    LET c == SumUp(h, N)
        b == c.b
        fs == EvenSplit(Len(rows), k)
        n == Len(rows)
        c1 == [c EXCEPT !.fsize = @ \o fs, !.sum = @ \o NoSums(k), !.hd = FALSE, !.ad = FALSE, !.pos = Size(c)]
        g == GrownCol([disk[b] EXCEPT !.fsize = c.fsize, !.sum = c.sum], fs)
        d1 == [g EXCEPT !.dtype = c.dtype, !.nmemb = c.nmemb, !.attrs = IF c.ad THEN c.attrs ELSE @]
        all == SetAll(hnd, h, N, [c1 EXCEPT !.pos = 0])
    IN  /\ reply' = Ok
        /\ IF n = 0 \/ ~wrote THEN disk' = [disk EXCEPT ![b] = d1] /\ hnd' = all
           ELSE /\ disk' = [disk EXCEPT ![b] = [d1 EXCEPT !.data = PutRows(@, c1.fsize, c1.pos, rows),
                                !.wr = [ i \in 1..Len(@) |-> IF i <= Len(c1.fsize)
                                            THEN @[i] \cup Touched(c1.fsize, i, c1.pos, n) ELSE @[i] ]]]
                /\ hnd' = [all EXCEPT ![Hr(h, 0)].sum = NewSums(c1, d1.wr, rows), ![Hr(h, 0)].hd = TRUE]
=============================================================================
