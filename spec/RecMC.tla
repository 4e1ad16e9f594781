------------------------------ MODULE RecMC ------------------------------
(* Records with small constants.  Checked: after any history, the columns are    *)
(* what the same operations on one-field records leave (each column evolves      *)
(* alone), and records read back as a plain array of tuples.                     *)
EXTENDS Records, Json, IOUtils
CONSTANTS RTs, Sizes, MaxOps
VARIABLES ops, table
mcvars == <<disk, hnd, reply, ops, table>>
MCView == <<disk, table>>

MCInit == Init /\ ops = <<>> /\ table = <<>>
Log(o) == ops' = Append(ops, o)
All(rt) == 1..Len(rt)

Tab(b) == IF b \in DOMAIN table THEN table[b] ELSE <<>>

ACreate == \E rt \in RTs, m \in {"w+", "a+", "r"}, fs \in Sizes : \E d \in SUBSET All(rt) :
    /\ RecCreate(rt, m, fs, d)
    \* the implementation serves the fields in order and stops at the first it cannot serve
    /\ d = { i \in All(rt) : \A j \in 1..i : CreateField(rt[j], m, fs) }
    /\ Log([op |-> "reccreate", rt |-> rt, mode |-> m, fsize |-> fs])
    /\ table' = [ b \in DOMAIN table \cup { rt[i].b : i \in d } |->
                    IF \E i \in d : rt[i].b = b
                    THEN (IF m = "w+" THEN <<>> ELSE Tab(b)) \o [ k \in 1..Sum(fs) |-> 0 ] ELSE table[b] ]
AWrite == \E rt \in RTs, off \in -2..3, n \in 0..2 : \E d \in SUBSET All(rt) :
    LET k == Len(ops) + 1
        vals == [ i \in All(rt) |-> [ r \in 1..n |-> [ j \in 1..rt[i].nmemb |-> 20 * k + 5 * r + i + j ] ] ]
    IN  /\ RecWrite(rt, off, vals, n, d)
        /\ d = { i \in All(rt) : \A j \in 1..i : WriteField(rt[j], off, n) }
        /\ Log([op |-> "recwrite", rt |-> rt, off |-> off, n |-> n, vals |-> vals])
        /\ table' = [ b \in DOMAIN table |-> IF \E i \in d : rt[i].b = b
                        THEN LET i == CHOOSE x \in d : rt[x].b = b
                                 s == IF off < 0 THEN off + Len(table[b]) ELSE off IN
                             [ r \in 1..Len(table[b]) |-> IF r > s /\ r <= s + n THEN vals[i][r - s][1] ELSE table[b][r] ]
                        ELSE table[b] ]
    ARead == \E rt \in RTs, off \in -2..3, n \in 0..2 :
    RecRead(rt, off, n) /\ Log([op |-> "recread", rt |-> rt, off |-> off, n |-> n]) /\ UNCHANGED table

MCNext == Len(ops) < MaxOps /\ (ACreate \/ AWrite \/ ARead)
MCSpec == MCInit /\ [][MCNext]_mcvars

Val(b, r) == LET c == disk[b] IN IF Covered(c.data, c.fsize, r) /\ RowAt(c.data, c.fsize, r) # Hole
                                 THEN RowAt(c.data, c.fsize, r)[1] ELSE 0
TableInv == /\ DOMAIN table = DOMAIN disk
            /\ \A b \in DOMAIN disk : Len(table[b]) = Size(disk[b])
                 /\ \A r \in 0..(Size(disk[b]) - 1) : Val(b, r) = table[b][r + 1]
\* columns that are not fields of the record are left alone, also by failing operations; reads change nothing
Untouched == [][ LET o == ops'[Len(ops')] IN
                 \A b \in DOMAIN disk : (o.op = "recread" \/ \A i \in 1..Len(o.rt) : o.rt[i].b # b) => disk'[b] = disk[b] ]_mcvars
Emit == "EMIT" \notin DOMAIN IOEnv
        \/ PrintT((IF MCView' = MCView THEN "LOOP " ELSE "OPS ") \o ToJson(ops'))

FA == [b |-> <<1>>, dtype |-> "<i4", nmemb |-> 1]
FB == [b |-> <<2>>, dtype |-> ">f8", nmemb |-> 2]
FC == [b |-> <<3, 1>>, dtype |-> "<u1", nmemb |-> 3]
DRTs == {<<FA>>, <<FA, FB>>, <<FB, FA>>, <<FC, FA>>}
DSizes == {<<1>>, <<0, 2>>}
=============================================================================
