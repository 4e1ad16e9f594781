----------------------------- MODULE PyMpiTrace -----------------------------
(* Executions of Python programs on several ranks.  What a rank does on its own is *)
(* one event, in the order in which it happened; a collective call is one event,    *)
(* placed where the first rank came back from it, with what every rank got.  Ranks  *)
(* in e.fail could not open files during the call.                                  *)
EXTENDS PyTrace, PyMpi

N == e.n
Same2(s) == \A i, j \in 1..Len(s) : s[i] = s[j]
\* every rank comes back, with the same result
AllRes == Check("res", Len(e.ress) = N /\ \A i \in 1..N : e.ress[i] = reply'.res, <<e.op, "returned", e.ress, "want", reply'.res>>)
Fails == Has("fail") /\ e.fail # <<>>
FailErr == Fails /\ \A i \in 1..Len(e.ress) : e.ress[i] = "err"
Descs(h) == reply'.res = "ok" /\ Has("descs") =>
    LET c == hnd'[Hr(h, 0)] IN
    \A i \in 1..N : Check("hdr", e.descs[i].dtype = c.dtype /\ e.descs[i].nmemb = c.nmemb /\ e.descs[i].nfile = Len(c.fsize) /\ e.descs[i].size = Size(c),
                          <<e.op, "rank", i - 1, e.descs[i], "want", c.dtype, c.nmemb, c.fsize>>)
NoObjs == UNCHANGED <<ds, pk>>
SameWeak == weak' = weak
\* (a directory that has got attributes but no header yet looks like one with attributes only)
Both(b) == {b, Append(b, 0)}
Settled(b) == weak' = [meta |-> weak.meta \ Both(b), all |-> weak.all \ Both(b)]
Open3(b) == weak' = [meta |-> weak.meta \cup Both(b), all |-> weak.all \cup Both(b)]
Visible == DiskMatches

\* a file object shows the columns there were when its ranks last looked together; it may look together
\* in any collective call on it
MNames(p) == NotDoubted(NamesIn(disk', p))
MLooks(f) == fl' = [fl EXCEPT ![f].seen = {NamesIn(disk', fl[f].p)}]
MMayLook(f) == fl' = [fl EXCEPT ![f].seen = @ \cup {NamesIn(disk', fl[f].p)}]

\* a creation that failed may have made the directories of the column
MaybeDir(p) == \E b \in weak.all : Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
TMFile == IsEvent("mfile") /\ HoldOn /\ NoObjs /\ SameWeak
          /\ \/ FailErr /\ reply' = Err /\ UNCHANGED fl
             \/ /\ ~FailErr
                /\ reply' = (IF e.agree /\ (e.create \/ DirExists(e.p) \/ (MaybeDir(e.p) /\ e.ress[1] = "ok")) THEN Ok ELSE Err)
                /\ fl' = IF reply'.res = "ok" THEN SetKey(fl, e.f, [p |-> e.p, seen |-> {NamesIn(disk, e.p)}]) ELSE fl
          /\ AllRes /\ DiskMatches
TMRefresh == IsEvent("mrefresh") /\ HoldOn /\ NoObjs /\ SameWeak
             /\ \/ FailErr /\ reply' = Err /\ MMayLook(e.f)
                \/ ~FailErr /\ reply' = Ok /\ MLooks(e.f)
             /\ AllRes /\ DiskMatches
\* one rank looks at the names
TMNames == IsEvent("mnames") /\ HoldOn /\ reply' = Ok /\ NoObjs /\ SameWeak
           /\ LET S == { e.names[i] : i \in 1..Len(e.names) }
                  w == { x \in fl[e.f].seen : NotDoubted(x) = NotDoubted(S) } IN
              /\ Check("list", w # {} /\ Cardinality(S) = Len(e.names), <<"names", e.names, "want", fl[e.f].seen>>)
              /\ fl' = (IF w = {} THEN fl ELSE [fl EXCEPT ![e.f].seen = w])
           /\ DiskMatches
\* the file object's own names after a call that changes what there is
After(f) == IF reply'.res = "ok" THEN MLooks(f) ELSE MMayLook(f)
Arg == [b |-> e.b, h |-> e.h, dtype |-> e.dtype, nmemb |-> e.nmemb, size |-> e.size, nfile |-> e.nfile, agree |-> e.agree]
TMCreate == IsEvent("mcreate") /\ NoObjs
            /\ \/ FailErr /\ MCreateOk(Arg) /\ HoldOn /\ reply' = Err /\ Open3(e.b)
               \/ ~(FailErr /\ MCreateOk(Arg)) /\ MCreate(Arg, N) /\ IF MCreateOk(Arg) THEN Settled(e.b) ELSE SameWeak
            /\ After(e.f) /\ AllRes /\ Descs(e.h) /\ DiskMatches
ArrArg == [b |-> e.b, h |-> e.h, dtype |-> e.dtype, nmemb |-> e.nmemb, parts |-> e.parts, nfile |-> e.nfile]
TMArr == IsEvent("marr") /\ NoObjs
         /\ \/ FailErr /\ HoldOn /\ reply' = Err /\ Open3(e.b)
            \/ ~FailErr /\ MFromArray(ArrArg, N) /\ IF reply'.res = "ok" THEN Settled(e.b) ELSE SameWeak
         /\ After(e.f) /\ AllRes /\ Descs(e.h) /\ Mem /\ DiskMatches
TMOpen == IsEvent("mopen") /\ NoObjs /\ SameWeak
          /\ \/ FailErr /\ HoldOn /\ reply' = Err
             \/ ~FailErr /\ MOpen(e.b, e.h, e.agree, N)
          /\ MMayLook(e.f) /\ AllRes /\ Descs(e.h) /\ DiskMatches
TMFlush == IsEvent("mflush") /\ NoObjs /\ UNCHANGED fl
           /\ LET b == hnd[Hr(e.h, 0)].b IN
              \/ FailErr /\ MFlushFailed(e.h, N) /\ weak' = [weak EXCEPT !.meta = @ \cup {b}]
              \/ ~FailErr /\ MFlush(e.h, N) /\ weak' = IF SumUp(e.h, N).hd \/ SumUp(e.h, N).ad THEN [weak EXCEPT !.meta = @ \ {b}] ELSE weak
           /\ AllRes /\ Descs(e.h) /\ DiskMatches
TMAppend == IsEvent("mappend") /\ NoObjs /\ UNCHANGED fl /\ SameWeak
            /\ MAppend(e.h, N, e.rows, e.nfile, e.wrote) /\ AllRes /\ Descs(e.h) /\ Mem /\ DiskMatches
\* the ranks of the program wait for each other
TMSync == IsEvent("msync") /\ HoldOn /\ reply' = Ok /\ NoObjs /\ UNCHANGED fl /\ SameWeak /\ AllRes /\ DiskMatches
\* a dataset of the columns, opened together; every rank reads what it wants of it
TMDataSet == IsEvent("mdsopen") /\ HoldOn /\ UNCHANGED <<fl, pk>> /\ SameWeak
             /\ LET cols == e.cols IN
                \/ FailErr /\ reply' = Err /\ UNCHANGED ds
                \/ ~FailErr /\ IF DataSetOk(cols) THEN reply' = Ok /\ ds' = SetKey(ds, e.d, DataSet(cols)) ELSE reply' = Err /\ UNCHANGED ds
             /\ AllRes /\ DiskMatches

MpiLocal == TPGet \/ TPSet \/ TPRead \/ TPWrite \/ TPSetAttr \/ TPGetAttr \/ TPDelAttr \/ TPAttrs \/ TPDesc \/ TPDrop \/ TDsGet \/ (TNop /\ Plainly)
PyMpiNext == (PReset /\ weak' = NoWeak) \/ TMFile \/ TMRefresh \/ TMNames \/ TMCreate \/ TMArr \/ TMOpen \/ TMFlush \/ TMAppend
    \/ TMSync \/ TMDataSet \/ (SameWeak /\ MpiLocal)
PyMpiSpec == TraceInit /\ fl = <<>> /\ ds = <<>> /\ pk = <<>> /\ [][PyMpiNext]_pyvars
=============================================================================
