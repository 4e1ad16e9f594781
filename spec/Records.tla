------------------------------ MODULE Records ------------------------------
(* Structured records: a record type is a sequence of fields [b, dtype, nmemb]; *)
(* every operation acts on the column of each field as on that column alone,    *)
(* and the field lies at its packed offset in every record.                     *)
EXTENDS BigFile

Packed(rt, i) == SumSeq([ j \in 1..(i - 1) |-> DTypes[rt[j].dtype].w * rt[j].nmemb ])
ItemSize(rt) == Packed(rt, Len(rt) + 1)

\* --- the effect of one operation on one field's column, as a function of the disk
NewCol(f, fs) == [dtype |-> f.dtype, nmemb |-> f.nmemb, fsize |-> fs,
                  sum |-> [ i \in 1..Len(fs) |-> 0 ], attrs |-> NoAttrs,
                  data |-> [ i \in 1..Len(fs) |-> <<>> ], wr |-> [ i \in 1..Len(fs) |-> {} ]]
GrownCol(c, fs) ==
    LET n0 == Len(c.fsize)
        n == n0 + Len(fs)
    IN  [c EXCEPT !.fsize = c.fsize \o fs, !.sum = c.sum \o [ i \in 1..Len(fs) |-> 0 ],
                  !.data = [ i \in 1..Max2(n, Len(c.data)) |-> IF i > n0 /\ i <= n THEN <<>> ELSE c.data[i] ],
                  !.wr = [ i \in 1..Max2(n, Len(c.data)) |-> IF i > n0 /\ i <= n THEN {} ELSE c.wr[i] ]]
Start(c, off) == IF off < 0 THEN off + Size(c) ELSE off
At(c, off) == [dtype |-> c.dtype, fsize |-> c.fsize, sum |-> c.sum, pos |-> Start(c, off)]
WrittenCol(c, off, rows) ==
    IF rows = <<>> THEN c
    ELSE LET p == Start(c, off) IN
         [c EXCEPT !.data = PutRows(@, c.fsize, p, rows),
                   !.sum = NewSums(At(c, off), c.wr, rows),
                   !.wr = [ i \in 1..Len(@) |-> IF i <= Len(c.fsize) THEN @[i] \cup Touched(c.fsize, i, p, Len(rows)) ELSE @[i] ]]

IsCol(b) == b \in DOMAIN disk /\ ~IsMeta(b)
InRange(c, off, n) == Start(c, off) >= 0 /\ Start(c, off) <= Size(c) /\ Start(c, off) + n <= Size(c)

\* --- which fields can be served, and what becomes of their columns
CreateField(f, mode, fs) == CASE mode = "w+" -> Known(f.dtype) /\ f.nmemb >= 0
                              [] mode = "a+" -> IsCol(f.b)
                              [] OTHER -> FALSE
WriteField(f, off, n) == /\ IsCol(f.b) /\ InRange(disk[f.b], off, n)
                         /\ n > 0 => Convertible(f.dtype, disk[f.b].dtype)
ReadField(f, off, n) == /\ IsCol(f.b) /\ InRange(disk[f.b], off, n)
                        /\ Covers(disk[f.b].data, disk[f.b].fsize, Start(disk[f.b], off), n)
                        /\ n > 0 => Convertible(disk[f.b].dtype, f.dtype)

\* the fields in S have had the effect, given by E(i)
Effect(rt, S, E(_)) ==
    disk' = [ b \in DOMAIN disk \cup { rt[i].b : i \in S } |->
                IF \E i \in S : rt[i].b = b THEN E(CHOOSE i \in S : rt[i].b = b) ELSE disk[b] ]

\* an operation that cannot serve every field is refused; the fields it cannot serve are untouched,
\* the others (served before or after) have had the whole effect or none
Outcome(rt, Served(_), E(_), done) ==
    LET good == { i \in 1..Len(rt) : Served(i) } IN
    /\ UNCHANGED hnd
    /\ IF good = 1..Len(rt) THEN done = good /\ Effect(rt, good, E) /\ reply' = Ok
       ELSE done \subseteq good /\ Effect(rt, done, E) /\ reply' = Err

RecCreate(rt, mode, fs, done) ==
    Outcome(rt, LAMBDA i : CreateField(rt[i], mode, fs),
            LAMBDA i : IF mode = "w+" THEN NewCol(rt[i], fs) ELSE GrownCol(disk[rt[i].b], fs), done)
RecWrite(rt, off, vals, n, done) ==          \* vals[i]: the rows of field i
    Outcome(rt, LAMBDA i : WriteField(rt[i], off, n), LAMBDA i : WrittenCol(disk[rt[i].b], off, vals[i]), done)
RecRead(rt, off, n) ==
    /\ UNCHANGED <<disk, hnd>>
    /\ reply' = IF \A i \in 1..Len(rt) : ReadField(rt[i], off, n)
                THEN [res |-> "ok", vals |-> [ i \in 1..Len(rt) |->
                         GetRows(disk[rt[i].b].data, disk[rt[i].b].fsize, Start(disk[rt[i].b], off), n) ]]
                ELSE Err
=============================================================================
