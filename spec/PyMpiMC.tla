------------------------------ MODULE PyMpiMC ------------------------------
(* PyMpi with small constants: shared columns held against plain sequences that   *)
(* know nothing of ranks, files and objects.                                      *)
EXTENDS PyMpi, Json, IOUtils
CONSTANTS NR, Cols, MaxH, MaxOps, Kinds
VARIABLES ops, seq, sofar,   \* the plain sequence of a column, and the sum of all that was stored in it
          attr, saved,       \* attribute values as set through an object, and as saved
          ver, hver
mcvars == <<disk, hnd, reply, ops, seq, sofar, attr, saved, ver, hver>>
MCView == <<disk, hnd, seq, sofar, attr, saved, ver, hver>>
MCInit == Init /\ ops = <<>> /\ seq = <<>> /\ sofar = <<>> /\ attr = <<>> /\ saved = <<>> /\ ver = <<>> /\ hver = <<>>

RS == Ranks(NR)
Groups == { k \div 10 : k \in DOMAIN hnd }
Root(h) == hnd[Hr(h, 0)]
Free == CHOOSE h \in 1..(MaxH + 1) : h \notin Groups
CanOpen == Cardinality(Groups) < MaxH
On(b) == { h \in Groups : Root(h).b = b }
Dirty(h) == \E r \in RS : hnd[Hr(h, r)].hd \/ hnd[Hr(h, r)].ad
MayModify(h) == hver[h] = ver[Root(h).b] /\ \A g \in On(Root(h).b) : g # h => ~Dirty(g)
Log(os) == ops' = ops \o os
K == Len(ops) + 1
NewRows(n, o) == [ i \in 1..n |-> <<10 * K + o + i>> ]
Total(rows) == FoldLeft(LAMBDA a, r : a + ByteSumSeq("<i4", r), 0, rows)
Bump(b) == IF b \in DOMAIN ver THEN ver[b] + 1 ELSE 1
Sync == [op |-> "msync"]
\* the objects of a column are gone when it is made anew; the ranks have met since
Starts(b, h, rows) == /\ seq' = SetKey(seq, b, rows) /\ sofar' = SetKey(sofar, b, Total(SelectSeq(rows, LAMBDA r : r # Hole)))
                      /\ attr' = SetKey(attr, h, 0) /\ saved' = SetKey(saved, b, 0)
                      /\ ver' = SetKey(ver, b, Bump(b)) /\ hver' = SetKey(hver, h, Bump(b))
ACreate == \E b \in Cols, n \in {0, 3}, k \in 0..2 :
    /\ CanOpen /\ On(b) = {}
    /\ LET h == Free
           a == [op |-> "mcreate", f |-> 0, b |-> b, h |-> h, dtype |-> "<i4", nmemb |-> 1, size |-> n, nfile |-> k, agree |-> TRUE, fail |-> <<>>] IN
       /\ MCreate(a, NR) /\ Log(<<Sync, a>>)
       /\ IF reply'.res = "ok" THEN Starts(b, h, [ i \in 1..n |-> Hole ]) ELSE UNCHANGED <<seq, sofar, attr, saved, ver, hver>>
AArr == \E b \in Cols, p \in {<<0, 2>>, <<2, 1>>, <<0, 0>>}, k \in {<<>>, <<2>>} :
    /\ CanOpen /\ On(b) = {}
    /\ LET h == Free
           parts == [ r \in 1..NR |-> NewRows(p[1 + (r % 2)], 3 * r) ]
           a == [op |-> "marr", f |-> 0, b |-> b, h |-> h, dtype |-> "<i4", nmemb |-> 1, parts |-> parts, nfile |-> k, limit |-> 4, fail |-> <<>>] IN
       /\ MFromArray(a, NR) /\ Log(<<Sync, a>>)
       /\ Starts(b, h, AllRows(parts))
AOpen == \E b \in Cols :
    /\ CanOpen
    /\ MOpen(b, Free, TRUE, NR) /\ Log(<<[op |-> "mopen", f |-> 0, b |-> b, h |-> Free, agree |-> TRUE, fail |-> <<>>]>>)
    /\ IF reply'.res = "ok" THEN attr' = SetKey(attr, Free, saved[b]) /\ hver' = SetKey(hver, Free, ver[b]) ELSE UNCHANGED <<attr, hver>>
    /\ UNCHANGED <<seq, sofar, saved, ver>>
\* one rank stores rows [lo, lo + n)
AWrite == \E h \in Groups, r \in RS, lo \in 0..2, n \in 1..2 :
    LET b == Root(h).b
        rows == NewRows(n, 0) IN
    /\ MayModify(h) /\ lo + n <= Size(Root(h))
    /\ PyWrite(Hr(h, r), lo, "<i4", rows, 0)
    /\ Log(<<[op |-> "pywrite", r |-> r, h |-> Hr(h, r), start |-> lo, mdt |-> "<i4", rows |-> rows, left |-> 0, nm |-> 1]>>)
    /\ seq' = [seq EXCEPT ![b] = [ i \in 1..Len(@) |-> IF i > lo /\ i <= lo + n THEN rows[i - lo] ELSE @[i] ]]
    /\ sofar' = [sofar EXCEPT ![b] = @ + Total(rows)]
    /\ UNCHANGED <<attr, saved, ver, hver>>
Goes(h) == LET b == Root(h).b IN
    /\ ver' = [ver EXCEPT ![b] = IF Dirty(h) THEN @ + 1 ELSE @]
    /\ hver' = [hver EXCEPT ![h] = IF Dirty(h) THEN ver[b] + 1 ELSE @]
    /\ saved' = [saved EXCEPT ![b] = IF hver[h] = ver[b] THEN attr[h] ELSE @]
AFlush == \E h \in Groups, how \in {"flush", "with"} :
    MFlush(h, NR) /\ Log(<<[op |-> "mflush", h |-> h, how |-> how, fail |-> <<>>]>>) /\ Goes(h) /\ UNCHANGED <<seq, sofar, attr>>
AAppend == \E h \in Groups, n \in {0, 2}, k \in {1, 2} :
    LET b == Root(h).b IN
    /\ MayModify(h) /\ Len(Root(h).fsize) + k <= 4
    /\ MAppend(h, NR, NewRows(n, 0), k, TRUE)
    /\ Log(<<[op |-> "mappend", h |-> h, b |-> b, mdt |-> "<i4", rows |-> NewRows(n, 0), nfile |-> k]>>)
    /\ seq' = [seq EXCEPT ![b] = @ \o NewRows(n, 0)] /\ sofar' = [sofar EXCEPT ![b] = @ + Total(NewRows(n, 0))]
    /\ saved' = [saved EXCEPT ![b] = attr[h]] /\ ver' = [ver EXCEPT ![b] = @ + 1] /\ hver' = [hver EXCEPT ![h] = ver[b] + 1]
    /\ UNCHANGED attr
AAttr == \E h \in Groups :
    LET v == Stored([k |-> "arr", dt |-> "<i1", n |-> 1, raw |-> <<K>>])
        o(r) == [op |-> "pysetattr", r |-> r, h |-> Hr(h, r), name |-> 1, badname |-> FALSE, v |-> [k |-> "arr", dt |-> "<i1", n |-> 1, raw |-> <<K>>]] IN
    /\ MayModify(h)
    /\ hnd' = [ k \in DOMAIN hnd |-> IF k \in Objects(h, NR) THEN [hnd[k] EXCEPT !.attrs = SetKey(@, 1, v), !.ad = TRUE] ELSE hnd[k] ]
    /\ reply' = Ok /\ Log([ r \in 1..NR |-> o(r - 1) ])
    /\ attr' = [attr EXCEPT ![h] = K] /\ UNCHANGED <<disk, seq, sofar, saved, ver, hver>>
ADrop == \E h \in Groups :
    /\ ~Dirty(h) /\ hnd' = DelAll(hnd, h, NR) /\ reply' = Ok /\ Log([ r \in 1..NR |-> [op |-> "pydrop", r |-> r - 1, h |-> Hr(h, r - 1)] ])
    /\ attr' = DelKey(attr, h) /\ hver' = DelKey(hver, h) /\ UNCHANGED <<disk, seq, sofar, saved, ver>>
MCNext == Len(ops) < MaxOps /\
    (("create" \in Kinds /\ ACreate) \/ ("arr" \in Kinds /\ AArr) \/ ("open" \in Kinds /\ AOpen) \/ ("write" \in Kinds /\ AWrite)
     \/ ("flush" \in Kinds /\ AFlush) \/ ("append" \in Kinds /\ AAppend) \/ ("attr" \in Kinds /\ AAttr) \/ ("drop" \in Kinds /\ ADrop))
MCSpec == MCInit /\ [][MCNext]_mcvars

Val(b, r) == LET c == disk[b] IN IF Covered(c.data, c.fsize, r) THEN RowAt(c.data, c.fsize, r) ELSE Hole
RowsInv == DOMAIN seq = DOMAIN disk /\ \A b \in DOMAIN disk :
    Size(disk[b]) = Len(seq[b]) /\ \A r \in 0..(Size(disk[b]) - 1) : Val(b, r) = seq[b][r + 1]
\* when nothing is left to save, the checksums add up to all that was ever stored, by whichever rank
SumsInv == \A b \in DOMAIN disk : (\A h \in On(b) : ~Dirty(h)) =>
    (\E i \in 1..Len(disk[b].sum) : disk[b].sum[i] = Unknown) \/ Sum(disk[b].sum) = sofar[b]
AttrInv == \A b \in DOMAIN disk : disk[b].attrs = IF saved[b] = 0 THEN NoAttrs ELSE (1 :> Stored([k |-> "arr", dt |-> "<i1", n |-> 1, raw |-> <<saved[b]>>]))
\* what an object shows is the same on every rank, and what the column is when the object has not missed a save
AgreeInv == \A h \in Groups : /\ \A r \in RS : LET c == hnd[Hr(h, r)] IN
                                   c.b = Root(h).b /\ c.fsize = Root(h).fsize /\ c.attrs = Root(h).attrs /\ c.dtype = Root(h).dtype
                              /\ hver[h] = ver[Root(h).b] => Size(Root(h)) = Len(seq[Root(h).b])
Emit == "EMIT" \notin DOMAIN IOEnv
        \/ PrintT((IF MCView' = MCView THEN "LOOP " ELSE "OPS ") \o ToJson(ops'))
DCols == {<<1>>, <<2>>}
OneCol == {<<1>>}
DAll == {"create", "arr", "open", "write", "append", "flush", "drop", "attr"}
=============================================================================
