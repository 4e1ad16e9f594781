---------------------------- MODULE BigFileMC ----------------------------
(* BigFile with small constants: the guarantees users rely on, stated against   *)
(* ghost variables that know nothing of stripes, files, handles or chunks, and   *)
(* checked in every reachable state.  The same module generates the histories    *)
(* that are replayed into the real library: with EMIT every transition prints    *)
(* the operations that lead through it.                                          *)
EXTENDS BigFile, Json, IOUtils

CONSTANTS Cols,        \* paths
          Stripings,   \* file sizes a column is created with
          Growths,     \* file sizes added by growing
          DTs,         \* [col dtype, memory dtype] pairs for create and transfers
          NMemb,
          Names,       \* attribute names
          AttrVals,    \* attribute values [dt, n, vals, raw]
          Kinds,       \* names of the actions that are taken
          MaxH,        \* handles open at a time
          MaxWrites,   \* writes per column
          MaxOps

VARIABLES
    ops,       \* operations so far (hidden from the state identity)
    shadow,    \* col -> logical row -> values last written (a plain array)
    times,     \* col -> logical row -> how often written
    ver,       \* col -> number of saves
    hver,      \* handle -> number of saves it has seen
    attr,      \* handle -> the attribute map as a set of pairs, kept separately
    saved      \* col -> the attribute pairs as of its last save or creation

ghost == <<shadow, times, ver, hver, attr, saved>>
mcvars == <<disk, hnd, reply, ops, ghost>>
View == <<disk, hnd, ghost>>

Log(o) == ops' = Append(ops, o)
Free == CHOOSE h \in 1..(MaxH + 1) : h \notin DOMAIN hnd
CanOpen == Cardinality(DOMAIN hnd) < MaxH
On(b) == { h \in DOMAIN hnd : hnd[h].b = b }
Dirty(h) == hnd[h].hd \/ hnd[h].ad
\* at most one handle modifies a column at a time, and not one that missed changes
MayModify(h) == /\ hver[h] = ver[hnd[h].b]
                /\ \A g \in On(hnd[h].b) : g # h => ~Dirty(g)
NWrites(b) == Cardinality({ i \in DOMAIN ops : ops[i].op = "write" /\ ops[i].b = b })

AsPairs(f) == { <<k, [dt |-> f[k].dt, n |-> f[k].n, raw |-> f[k].raw]>> : k \in DOMAIN f }

MCInit == Init /\ ops = <<>> /\ shadow = <<>> /\ times = <<>> /\ ver = <<>> /\ hver = <<>> /\ attr = <<>> /\ saved = <<>>

Get0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
GetE(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}

ACreate == \E b \in Cols, p \in DTs, s \in Stripings :
    /\ CanOpen /\ On(b) = {}
    /\ LET h == Free
           meta == IsMeta(b)
           a == [op |-> "create", b |-> b, h |-> h, dtype |-> p[1], nmemb |-> NMemb,
                 fsize |-> IF meta THEN <<>> ELSE s, badname |-> FALSE]
       IN  /\ (meta => s = CHOOSE x \in Stripings : TRUE)
           /\ Create(a) /\ Log(a)
           /\ shadow' = SetKey(shadow, b, <<>>) /\ times' = SetKey(times, b, <<>>)
           /\ ver' = SetKey(ver, b, Get0(ver, b) + 1) /\ hver' = SetKey(hver, h, Get0(ver, b) + 1)
           /\ attr' = SetKey(attr, h, {}) /\ saved' = SetKey(saved, b, {})

AOpen == \E b \in Cols :
    /\ CanOpen
    /\ LET h == Free IN
       /\ Open(b, h) /\ Log([op |-> "open", b |-> b, h |-> h])
       /\ IF reply'.res = "ok"
          THEN hver' = SetKey(hver, h, Get0(ver, b)) /\ attr' = SetKey(attr, h, GetE(saved, b))
               /\ ver' = SetKey(ver, b, Get0(ver, b))
               /\ saved' = SetKey(saved, b, GetE(saved, b))
               /\ shadow' = (IF b \in DOMAIN shadow THEN shadow ELSE SetKey(shadow, b, <<>>))
               /\ times' = (IF b \in DOMAIN times THEN times ELSE SetKey(times, b, <<>>))
          ELSE UNCHANGED ghost

SaveGhost(h) ==
    LET b == hnd[h].b IN
    /\ ver' = [ver EXCEPT ![b] = IF Dirty(h) THEN @ + 1 ELSE @]
    /\ saved' = [saved EXCEPT ![b] = IF hnd[h].ad THEN attr[h] ELSE @]
    /\ UNCHANGED <<shadow, times>>

AFlush == \E h \in DOMAIN hnd :
    /\ (Dirty(h) => MayModify(h))
    /\ Flush(h) /\ Log([op |-> "flush", h |-> h]) /\ SaveGhost(h)
    /\ hver' = [hver EXCEPT ![h] = ver'[hnd[h].b]] /\ UNCHANGED attr
AClose == \E h \in DOMAIN hnd :
    /\ Close(h) /\ Log([op |-> "close", h |-> h]) /\ SaveGhost(h)
    /\ hver' = DelKey(hver, h) /\ attr' = DelKey(attr, h)
ADrop == \E h \in DOMAIN hnd :
    /\ Drop(h) /\ Log([op |-> "drop", h |-> h])
    /\ hver' = DelKey(hver, h) /\ attr' = DelKey(attr, h) /\ UNCHANGED <<shadow, times, ver, saved>>

AGrow == \E h \in DOMAIN hnd, g \in Growths :
    /\ ~IsMeta(hnd[h].b) /\ MayModify(h) /\ Len(hnd[h].fsize) + Len(g) <= 4
    /\ Grow(h, g) /\ Log([op |-> "grow", h |-> h, fsize |-> g])
    \* rows beyond the old size have not been written, whatever an abandoned growth left behind
    /\ LET old == Size(hnd[h])
           b == hnd[h].b
           Keep(f) == [ r \in { x \in DOMAIN f : x < old } |-> f[r] ]
       IN shadow' = [shadow EXCEPT ![b] = Keep(@)] /\ times' = [times EXCEPT ![b] = Keep(@)]
    /\ UNCHANGED <<ver, hver, attr, saved>>

ASeek == \E h \in DOMAIN hnd : \E off \in -(Size(hnd[h]) + 1)..(Size(hnd[h]) + 1) :
    /\ ~IsMeta(hnd[h].b)
    /\ Seek(h, off) /\ Log([op |-> "seek", h |-> h, off |-> off]) /\ UNCHANGED ghost
ASeekRel == \E h \in DOMAIN hnd : \E off \in -(Size(hnd[h]) + 1)..(Size(hnd[h]) + 1) :
    /\ ~IsMeta(hnd[h].b)
    /\ SeekRel(h, off) /\ Log([op |-> "seekrel", h |-> h, off |-> off]) /\ UNCHANGED ghost
AEof == \E h \in DOMAIN hnd : ~IsMeta(hnd[h].b) /\ Eof(h) /\ Log([op |-> "eof", h |-> h]) /\ UNCHANGED ghost

\* the k-th write of a column stores rows full of k (so rows of different writes differ)
AWrite == \E h \in DOMAIN hnd, n \in 0..3, p \in DTs :
    LET b == hnd[h].b
        k == NWrites(b) + 1
        rows == [ i \in 1..n |-> [ j \in 1..NMemb |-> 10 * k + i + j - 1 ] ]
        pos == hnd[h].pos
    IN  /\ ~IsMeta(b) /\ p[1] = hnd[h].dtype /\ MayModify(h) /\ k <= MaxWrites
        /\ Write(h, p[2], rows)
        /\ Log([op |-> "write", b |-> b, h |-> h, mdt |-> p[2], rows |-> rows])
        /\ IF reply'.res = "ok"
           THEN /\ shadow' = [shadow EXCEPT ![b] = [ r \in DOMAIN @ \cup pos..(pos + n - 1) |->
                                    IF r \in pos..(pos + n - 1) THEN rows[r - pos + 1] ELSE @[r] ]]
                /\ times' = [times EXCEPT ![b] = [ r \in DOMAIN @ \cup pos..(pos + n - 1) |->
                                    (IF r \in pos..(pos + n - 1) THEN 1 ELSE 0)
                                    + (IF r \in DOMAIN @ THEN @[r] ELSE 0) ]]
           ELSE UNCHANGED <<shadow, times>>
        /\ UNCHANGED <<ver, hver, attr, saved>>

ARead == \E h \in DOMAIN hnd, n \in 0..3, p \in DTs : \E q \in hnd[h].pos..(hnd[h].pos + n) :
    /\ ~IsMeta(hnd[h].b) /\ p[1] = hnd[h].dtype
    /\ (ReadOk(hnd[h], p[2], n) => q = hnd[h].pos)
    /\ Read(h, p[2], n, q) /\ Log([op |-> "read", h |-> h, mdt |-> p[2], n |-> n]) /\ UNCHANGED ghost
AReadSimple == \E h \in DOMAIN hnd, n \in {0, 2, 9}, p \in DTs : \E s \in -(Size(hnd[h]) + 1)..(Size(hnd[h]) + 1) :
    /\ ~IsMeta(hnd[h].b) /\ p[1] = hnd[h].dtype
    /\ ReadSimple(h, s, n, p[2])
    /\ Log([op |-> "readsimple", h |-> h, start |-> s, mdt |-> p[2], n |-> n]) /\ UNCHANGED ghost

ASetAttr == \E h \in DOMAIN hnd, k \in Names, v \in AttrVals :
    /\ MayModify(h)
    /\ SetAttr(h, k, FALSE, v)
    /\ Log([op |-> "setattr", h |-> h, name |-> k, badname |-> FALSE, dt |-> v.dt, n |-> v.n, vals |-> v.vals])
    /\ attr' = [attr EXCEPT ![h] = { x \in @ : x[1] # k } \cup {<<k, [dt |-> v.dt, n |-> v.n, raw |-> v.raw]>>}]
    /\ UNCHANGED <<shadow, times, ver, hver, saved>>
ARemoveAttr == \E h \in DOMAIN hnd, k \in Names :
    /\ MayModify(h)
    /\ RemoveAttr(h, k) /\ Log([op |-> "rmattr", h |-> h, name |-> k])
    /\ attr' = [attr EXCEPT ![h] = { x \in @ : x[1] # k }]
    /\ UNCHANGED <<shadow, times, ver, hver, saved>>
ALookup == \E h \in DOMAIN hnd, k \in Names :
    LookupAttr(h, k) /\ Log([op |-> "lookup", h |-> h, name |-> k]) /\ UNCHANGED ghost
AListAttrs == \E h \in DOMAIN hnd : ListAttrs(h) /\ Log([op |-> "lsattr", h |-> h]) /\ UNCHANGED ghost
AList == List(<<>>) /\ Log([op |-> "list", p |-> <<>>]) /\ UNCHANGED ghost

MCNext == /\ Len(ops) < MaxOps
          /\ \/ "create" \in Kinds /\ ACreate
             \/ "open" \in Kinds /\ AOpen
             \/ "flush" \in Kinds /\ AFlush
             \/ "close" \in Kinds /\ AClose
             \/ "drop" \in Kinds /\ ADrop
             \/ "grow" \in Kinds /\ AGrow
             \/ "seek" \in Kinds /\ ASeek
             \/ "seekrel" \in Kinds /\ ASeekRel
             \/ "eof" \in Kinds /\ AEof
             \/ "write" \in Kinds /\ AWrite
             \/ "read" \in Kinds /\ ARead
             \/ "readsimple" \in Kinds /\ AReadSimple
             \/ "setattr" \in Kinds /\ ASetAttr
             \/ "rmattr" \in Kinds /\ ARemoveAttr
             \/ "lookup" \in Kinds /\ ALookup
             \/ "lsattr" \in Kinds /\ AListAttrs
             \/ "list" \in Kinds /\ AList
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* What must hold *)
TypeOK == /\ \A b \in DOMAIN disk : Len(disk[b].fsize) = Len(disk[b].sum) /\ Len(disk[b].fsize) <= Len(disk[b].data)
          /\ \A h \in DOMAIN hnd : hnd[h].pos >= 0 /\ hnd[h].pos <= Size(hnd[h])
                                   /\ Len(hnd[h].sum) = Len(hnd[h].fsize)

\* the rows of a column are the array of what was written, seen through any handle (C01, C07)
Shown(c, b, r) == IF Covered(disk[b].data, c.fsize, r) THEN RowAt(disk[b].data, c.fsize, r) ELSE <<"absent">>
RoundTrip == \A h \in DOMAIN hnd : LET b == hnd[h].b IN
    (b \in DOMAIN disk /\ ~IsMeta(b)) => \A r \in 0..(Size(hnd[h]) - 1) :
        IF r \in DOMAIN shadow[b] THEN Shown(hnd[h], b, r) = shadow[b][r]
        ELSE Shown(hnd[h], b, r) \in {Hole, <<"absent">>}

\* files written exactly once carry the sum of their bytes (C10)
WrittenOnce(b, i) == LET fs == disk[b].fsize IN
    fs[i] > 0 /\ \A k \in 0..(fs[i] - 1) : LET r == Before(fs, i) + k IN r \in DOMAIN times[b] /\ times[b][r] = 1
\* ... unless the handle that wrote them was abandoned without saving
Abandoned(b) == \E i \in DOMAIN ops : ops[i].op = "drop"
Sums == \A b \in DOMAIN disk : (~IsMeta(b) /\ ~Abandoned(b) /\ \A h \in On(b) : ~hnd[h].hd) =>
    \A i \in 1..Len(disk[b].fsize) :
        WrittenOnce(b, i) => disk[b].sum[i] = ByteSumRows(disk[b].dtype, disk[b].data[i])

\* attributes are a map, and what was saved is what a new handle sees (C05, C06)
AttrMaps == /\ \A h \in DOMAIN hnd : AsPairs(hnd[h].attrs) = attr[h]
            /\ \A b \in DOMAIN disk : AsPairs(disk[b].attrs) = GetE(saved, b)

\* the listing is exactly the columns created, none twice, none invented (C09)
Made == { ops[i].b : i \in { j \in DOMAIN ops : ops[j].op = "create" } }
Lists == Listing(<<>>) = { b \in Made : ~IsMeta(b) /\ ~Hidden(b) /\ \A q \in Made : IsMeta(q) \/ ~Inside(q, b) }

MCInv == TypeOK /\ RoundTrip /\ Sums /\ AttrMaps /\ Lists

\* operations on one column leave the others alone, and observers leave all alone (C08)
LastOp == ops'[Len(ops')]
ColOf(o) == IF "b" \in DOMAIN o THEN o.b
            ELSE IF "h" \in DOMAIN o THEN hnd[o.h].b ELSE <<>>
Isolated == [][ \A b \in DOMAIN disk : b # ColOf(LastOp) => disk'[b] = disk[b] ]_mcvars
Observers == {"open", "read", "readsimple", "seek", "seekrel", "eof", "lookup", "lsattr", "list", "drop"}
ReadOnly == [][ /\ LastOp.op \in Observers => disk' = disk
                /\ (LastOp.op \in {"close", "flush"} /\ ~Dirty(LastOp.h)) => disk' = disk
                /\ (reply'.res = "err" => disk' = disk) ]_mcvars

\* prints the operations through every transition, for replay into the real library;
\* transitions that change nothing are marked, so that many of them can share a replay
Emit == "EMIT" \notin DOMAIN IOEnv
        \/ PrintT((IF View' = View THEN "LOOP " ELSE "OPS ") \o ToJson(ops'))
=============================================================================
