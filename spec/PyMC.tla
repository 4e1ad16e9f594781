------------------------------- MODULE PyMC -------------------------------
(* PyFile with small constants: what a user of the Python layer relies on, held   *)
(* against plain sequences of rows that know nothing of files and handles.         *)
EXTENDS PyFile, Json, IOUtils
CONSTANTS Cols, MaxH, MaxOps, Kinds
VARIABLES ops, seq,     \* column -> its rows as a plain sequence (<<>> is a row never written)
          size,         \* handle -> number of rows of the column when the handle last looked
          ver, hver,    \* saves of a column, and how many of them a handle has seen
          pk            \* the pickle, if there is one: <<handle record, size, ver>>
mcvars == <<disk, hnd, reply, ops, seq, size, ver, hver, pk>>
MCView == <<disk, hnd, seq, size, ver, hver, pk>>

MCInit == Init /\ ops = <<>> /\ seq = <<>> /\ size = <<>> /\ ver = <<>> /\ hver = <<>> /\ pk = <<>>
Log(o) == ops' = Append(ops, o)
Free == CHOOSE h \in 1..(MaxH + 1) : h \notin DOMAIN hnd
CanOpen == Cardinality(DOMAIN hnd) < MaxH
On(b) == { h \in DOMAIN hnd : hnd[h].b = b }
Dirty(h) == hnd[h].hd \/ hnd[h].ad
MayModify(h) == hver[h] = ver[hnd[h].b] /\ (\A g \in On(hnd[h].b) : g # h => ~Dirty(g)) /\ (IF pk = <<>> THEN TRUE ELSE pk[1].b # hnd[h].b \/ ~pk[1].hd)
Row(v) == <<v>>
K == Len(ops) + 1
NewRows(n) == [ i \in 1..n |-> Row(10 * K + i) ]
Never(n) == [ i \in 1..n |-> Hole ]
Unpickled(b) == IF pk = <<>> THEN TRUE ELSE pk[1].b # b
Bump(b) == IF b \in DOMAIN ver THEN ver[b] + 1 ELSE 1

ACreate == \E b \in Cols, n \in 0..2, k \in 0..2 :
    /\ CanOpen /\ On(b) = {} /\ Unpickled(b)
    /\ LET h == Free
           a == [op |-> "pycreate", f |-> 0, b |-> b, h |-> h, dtype |-> "<i4", nmemb |-> 1, size |-> n, nfile |-> k] IN
       /\ PyCreate(a) /\ Log(a)
       /\ IF reply'.res = "ok" THEN seq' = SetKey(seq, b, Never(n)) /\ size' = SetKey(size, h, n)
                                    /\ ver' = SetKey(ver, b, Bump(b)) /\ hver' = SetKey(hver, h, Bump(b))
          ELSE UNCHANGED <<seq, size, ver, hver>>
    /\ UNCHANGED pk
AArr == \E b \in Cols, n \in {0, 3}, k \in {<<>>, <<2>>}, lim \in {0, 8} :
    /\ CanOpen /\ On(b) = {} /\ Unpickled(b)
    /\ LET h == Free
           a == [op |-> "pyarr", f |-> 0, b |-> b, h |-> h, dtype |-> "<i4", nmemb |-> 1, rows |-> NewRows(n), nfile |-> k, limit |-> lim] IN
       /\ PyFromArray(a) /\ Log(a)
       /\ seq' = SetKey(seq, b, NewRows(n)) /\ size' = SetKey(size, h, n)
       /\ ver' = SetKey(ver, b, Bump(b)) /\ hver' = SetKey(hver, h, Bump(b))
    /\ UNCHANGED pk
AOpen == \E b \in Cols :
    /\ CanOpen
    /\ LET h == Free IN
       /\ Open(b, h) /\ Log([op |-> "pyopen", f |-> 0, b |-> b, h |-> h])
       /\ IF reply'.res = "ok" THEN size' = SetKey(size, h, Size(disk[b])) /\ hver' = SetKey(hver, h, ver[b]) ELSE UNCHANGED <<size, hver>>
    /\ UNCHANGED <<seq, pk, ver>>
Ix == { [k |-> "all"], [k |-> "int", i |-> -1], [k |-> "int", i |-> 1], [k |-> "slice", a |-> <<-2>>, o |-> <<>>, s |-> <<>>],
        [k |-> "slice", a |-> <<1>>, o |-> <<2>>, s |-> <<1>>] }
AGet == \E h \in DOMAIN hnd, ix \in {[k |-> "all"], [k |-> "int", i |-> -1]} :
    PyGet(h, ix) /\ Log([op |-> "pyget", h |-> h, ix |-> ix]) /\ UNCHANGED <<seq, size, ver, hver, pk>>
ASet == \E h \in DOMAIN hnd, ix \in Ix :
    LET s == Select(ix, size[h])
        rows == NewRows(IF s.ok THEN s.n ELSE 1)
        b == hnd[h].b IN
    /\ MayModify(h)
    /\ PySet(h, ix, "<i4", rows, 0)
    /\ Log([op |-> "pyset", h |-> h, ix |-> ix, mdt |-> "<i4", rows |-> rows, left |-> 0, nm |-> 1])
    /\ seq' = (IF s.ok THEN [seq EXCEPT ![b] = [ r \in 1..Len(@) |-> IF r > s.lo /\ r <= s.lo + s.n THEN rows[r - s.lo] ELSE @[r] ]] ELSE seq)
    /\ UNCHANGED <<size, ver, hver, pk>>
AAppend == \E h \in DOMAIN hnd, n \in 0..2, k \in {0, 1, 2} :
    LET b == hnd[h].b IN
    /\ MayModify(h) /\ Len(hnd[h].fsize) + k <= 4 /\ Unpickled(b)
    /\ PyAppend(h, "<i4", NewRows(n), 0, k, FALSE)
    /\ Log([op |-> "pyappend", h |-> h, mdt |-> "<i4", rows |-> NewRows(n), left |-> 0, nm |-> 1, nfile |-> k])
    /\ IF reply'.res = "ok" THEN seq' = [seq EXCEPT ![b] = @ \o NewRows(n)] /\ size' = [size EXCEPT ![h] = @ + n]
                                 /\ ver' = [ver EXCEPT ![b] = @ + 1] /\ hver' = [hver EXCEPT ![h] = ver[b] + 1]
       ELSE UNCHANGED <<seq, size, ver, hver>>
    /\ UNCHANGED pk
SaveGhost(h) == ver' = [ver EXCEPT ![hnd[h].b] = IF Dirty(h) THEN @ + 1 ELSE @] /\ UNCHANGED <<seq, pk>>
AFlush == \E h \in DOMAIN hnd, how \in {"flush", "with"} :
    /\ Flush(h) /\ Log([op |-> "pyflush", h |-> h, how |-> how]) /\ SaveGhost(h) /\ hver' = [hver EXCEPT ![h] = IF Dirty(h) THEN ver[hnd[h].b] + 1 ELSE @] /\ UNCHANGED size
ADrop == \E h \in DOMAIN hnd :
    Close(h) /\ Log([op |-> "pydrop", h |-> h]) /\ SaveGhost(h) /\ hver' = DelKey(hver, h) /\ size' = DelKey(size, h)
\* the process of the handle ends: the pickle knows all that is not saved
ALose == \E h \in DOMAIN hnd :
    /\ IF pk = <<>> THEN FALSE ELSE pk[1].hd /\ pk[1] = PickleOf(h)
    /\ Drop(h) /\ Log([op |-> "pydrop", h |-> h, lost |-> TRUE])
    /\ hver' = DelKey(hver, h) /\ size' = DelKey(size, h) /\ UNCHANGED <<seq, ver, pk>>
\* an unsaved column moves: what stays behind is not written to again
APickle == \E h \in DOMAIN hnd :
    /\ pk = <<>> /\ UNCHANGED <<disk, hnd, seq, size, ver, hver>> /\ reply' = Ok
    /\ pk' = <<PickleOf(h), size[h], hver[h]>> /\ Log([op |-> "pypickle", h |-> h, p |-> 1, how |-> 2])
AUnpickle ==
    /\ pk # <<>> /\ CanOpen
    /\ (pk[1].hd => On(pk[1].b) = {} /\ (pk[3] = ver[pk[1].b] \/ pk[3] + 1 = ver[pk[1].b]))
    /\ PyUnpickle(pk[1], Free) /\ Log([op |-> "pyunpickle", p |-> 1, h |-> Free])
    /\ size' = SetKey(size, Free, pk[2]) /\ hver' = SetKey(hver, Free, IF pk[1].hd THEN ver[pk[1].b] ELSE pk[3])
    /\ pk' = <<>> /\ UNCHANGED <<seq, ver>>

MCNext == Len(ops) < MaxOps /\
    (("create" \in Kinds /\ ACreate) \/ ("arr" \in Kinds /\ AArr) \/ ("open" \in Kinds /\ AOpen) \/ ("get" \in Kinds /\ AGet)
     \/ ("set" \in Kinds /\ ASet) \/ ("append" \in Kinds /\ AAppend) \/ ("flush" \in Kinds /\ AFlush) \/ ("drop" \in Kinds /\ ADrop)
     \/ ("pickle" \in Kinds /\ (APickle \/ AUnpickle \/ ALose)))
MCSpec == MCInit /\ [][MCNext]_mcvars

\* the rows of every column are the plain sequence
Val(b, r) == LET c == disk[b] IN IF Covered(c.data, c.fsize, r) THEN RowAt(c.data, c.fsize, r) ELSE Hole
RowsInv == DOMAIN seq = DOMAIN disk /\ \A b \in DOMAIN disk : Len(seq[b]) = Size(disk[b]) /\ \A r \in 0..(Size(disk[b]) - 1) : Val(b, r) = seq[b][r + 1]
\* a handle has the size it saw, and a handle that may modify its column has that of the column
SizeInv == \A h \in DOMAIN hnd : Size(hnd[h]) = size[h] /\ (hver[h] = ver[hnd[h].b] => size[h] = Len(seq[hnd[h].b]))
\* checksums of a saved column are the sums of its rows, when every row was written once or never
SumsInv == \A b \in DOMAIN disk : (\A h \in On(b) : ~Dirty(h)) /\ (IF pk = <<>> THEN TRUE ELSE pk[1].b # b \/ ~pk[1].hd) =>
    \A i \in 1..Len(disk[b].fsize) : disk[b].sum[i] = Unknown \/
        disk[b].sum[i] = FoldLeft(LAMBDA a, r : a + ByteSumSeq("<i4", r), 0, disk[b].data[i])
\* what is read is the plain sequence
LastGet == Len(ops) > 0 /\ ops[Len(ops)].op = "pyget" /\ reply.res = "ok" =>
    LET o == ops[Len(ops)]
        s == Select(o.ix, size[o.h]) IN
    reply.rows = SubSeq(seq[hnd[o.h].b], s.lo + 1, s.lo + s.n)
Emit == "EMIT" \notin DOMAIN IOEnv
        \/ PrintT((IF MCView' = MCView THEN "LOOP " ELSE "OPS ") \o ToJson(ops'))
DCols == {<<1>>, <<2>>}
OneCol == {<<1>>}
DAll == {"create", "arr", "open", "get", "set", "append", "flush", "drop", "pickle"}
=============================================================================
