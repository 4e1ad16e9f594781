------------------------------ MODULE ToolsMC ------------------------------
(* Tools with small constants: what a user of the tools relies on, held against  *)
(* a plain map from names to rows and attributes that knows nothing of files.    *)
EXTENDS Tools, Json, IOUtils
CONSTANTS Cols,        \* names of columns
          Stripings, Kinds, MaxOps,
          Pars         \* numbers of ranks of the parallel tools (0: the serial tool)
VARIABLES ops, seq,    \* column -> its rows
          attr,        \* column -> its attributes as pairs
          type,        \* column -> dtype
          hurt         \* columns whose files were damaged behind the tools' back
ghost == <<seq, attr, type, hurt>>
mcvars == <<disk, hnd, reply, dmg, ops, ghost>>
MCView == <<disk, dmg, ghost>>
MCInit == Init /\ dmg = <<>> /\ ops = <<>> /\ seq = <<>> /\ attr = <<>> /\ type = <<>> /\ hurt = {}
Log(s) == ops' = ops \o s
Pairs(f) == { <<k, f[k]>> : k \in DOMAIN f }
Res(r) == reply' = [res |-> r] /\ UNCHANGED hnd
Refused == Res("err") /\ UNCHANGED <<disk, dmg, ghost>>
K == Len(ops) + 1
\* the description of the column `d` becomes that of `b`
Like(d, b) == seq' = SetKey(seq, d, seq[b]) /\ attr' = SetKey(attr, d, attr[b]) /\ type' = SetKey(type, d, type[b])
Clean(d) == hurt' = hurt \ {d} /\ dmg' = DelKey(dmg, d)

TheAttr == [dt |-> "<i4", n |-> 2, raw |-> <<1, 0, 0, 0, 2, 0, 0, 0>>]
ASetup == \E b \in Cols, s \in Stripings, w \in {TRUE, FALSE} :
    LET rows == [ i \in 1..SumSeq(s) |-> <<10 * K + i>> ]
        c == [EmptyMeta EXCEPT !.dtype = "<i4", !.nmemb = 1, !.attrs = IF w THEN 1 :> TheAttr ELSE <<>>] IN
    /\ b \notin DOMAIN disk /\ Cardinality(DOMAIN disk) < 2
    /\ \A z \in DOMAIN disk : ~Inside(b, z) /\ ~Inside(z, b)
    /\ Res("ok") /\ disk' = SetKey(disk, b, Holding(c, rows, s))
    /\ Log(<<[op |-> "create", b |-> b, h |-> K, dtype |-> "<i4", nmemb |-> 1, fsize |-> s, badname |-> FALSE]>>
           \o (IF rows = <<>> THEN <<>> ELSE <<[op |-> "write", h |-> K, mdt |-> "<i4", rows |-> rows, lay |-> "c"]>>)
           \o (IF w THEN <<[op |-> "setattr", h |-> K, name |-> 1, badname |-> FALSE, dt |-> "<i4", n |-> 2, vals |-> <<1, 2>>]>> ELSE <<>>)
           \o <<[op |-> "close", h |-> K]>>)
    /\ seq' = SetKey(seq, b, rows) /\ attr' = SetKey(attr, b, Pairs(c.attrs)) /\ type' = SetKey(type, b, "<i4") /\ Clean(b)

\* rows of a damaged column are not what they were; the tools that use them are not modelled
Whole(b) == b \notin hurt
OpCopy(b, d, n, k) == [op |-> "tcopy", p |-> <<>>, q |-> <<>>, b |-> b, d |-> d]
                      @@ (IF n = -1 THEN <<>> ELSE [nfile |-> n]) @@ (IF k = 0 THEN <<>> ELSE [par |-> k, sched |-> <<K, K % 5, K % 2>>, small |-> FALSE, buf |-> 8])
\* nothing is made inside of a column, or in the way of one
Fits2(d) == \A z \in DOMAIN disk : ~Inside(d, z) /\ ~Inside(z, d)
ACopy == \E b \in Cols, d \in Cols, n \in {-1, 0, 1, 3}, k \in Pars :
    /\ Whole(b) /\ Fits2(d)
    /\ Log(<<OpCopy(b, d, n, k)>>)
    /\ IF ~CopyAllowed(b, d, n) THEN Refused
       ELSE Res("ok") /\ (\E m \in FilesFor(At(b), n) : (m > 0 \/ Size(At(b)) = 0) /\ Copied(b, d, n, m)) /\ Like(d, b) /\ Clean(d)
ASample == \E b \in DOMAIN disk, d \in Cols, k \in Pars \ {0}, r \in {"1", "0", ".5"} :
    /\ Whole(b) /\ Fits2(d)
    /\ Log(<<[op |-> "tsample", p |-> <<>>, q |-> <<>>, b |-> b, d |-> d, ratio |-> r, chunk |-> 1 + (K % 2), par |-> k, sched |-> <<K, K % 5, K % 2>>,
              whole |-> r = "1", none |-> r = "0"]>>)
    /\ IF ~CopyAllowed(b, d, -1) THEN Refused
       ELSE \E S \in SUBSET (1..Size(disk[b])) :
            LET pl == SetToSortSeq(S, <) IN
            /\ r = "1" => S = 1..Size(disk[b])
            /\ r = "0" => S = {}
            /\ Res("ok") /\ Sampled(b, d, -1, Len(disk[b].fsize), pl)
            /\ seq' = SetKey(seq, d, [ i \in 1..Len(pl) |-> seq[b][pl[i]] ]) /\ attr' = SetKey(attr, d, attr[b]) /\ type' = SetKey(type, d, type[b]) /\ Clean(d)
ARepart == \E b \in DOMAIN disk, n \in {-1, 0, 1, 3} :
    /\ Whole(b) /\ RepartAllowed(b, n)      \* (what a refused one leaves under which name is open)
    /\ Log(<<[op |-> "trepart", p |-> <<>>, nfile |-> n, bs |-> <<b>>, all |-> <<b>>]>>)
    /\ Res("ok") /\ Reparted(b :> IF n = -1 \/ Len(disk[b].fsize) = 0 THEN Len(disk[b].fsize) ELSE n) /\ UNCHANGED <<dmg, ghost>>
ReName(f, b, d) == [ y \in (DOMAIN f \ {b}) \cup {d} |-> IF y = d THEN f[b] ELSE f[y] ]
IsPrefixDir(d) == Len(d) = 1 \/ \E z \in DOMAIN disk : Inside(SubSeq(d, 1, Len(d) - 1), z)
ARename == \E b \in DOMAIN disk, d \in Cols :
    /\ Fits2(d) /\ IsPrefixDir(d)
    /\ Log(<<[op |-> "trename", p |-> <<>>, b |-> b, d |-> d]>>)
    /\ IF d \in DOMAIN disk THEN Refused
       ELSE /\ Res("ok") /\ disk' = Moved(b, d)
            /\ seq' = ReName(seq, b, d) /\ attr' = ReName(attr, b, d) /\ type' = ReName(type, b, d)
            /\ hurt' = (IF b \in hurt THEN (hurt \ {b}) \cup {d} ELSE hurt)
            /\ dmg' = (IF b \in DOMAIN dmg THEN ReName(dmg, b, d) ELSE dmg)
ARm == \E b \in DOMAIN disk :
    /\ Log(<<[op |-> "trm", p |-> <<>>, bs |-> <<b>>]>>)
    /\ Res("ok") /\ disk' = Without(Under(b))
    /\ seq' = DelKey(seq, b) /\ attr' = DelKey(attr, b) /\ type' = DelKey(type, b) /\ Clean(b)
ASetAttr == \E b \in Cols, dt \in {"", "<i4", "<f8"}, vals \in {<<7>>, <<3, 4>>}, f \in BOOLEAN, n \in {0, 2} :
    LET c == At(b)
        d == SetType(c, 1, dt, f)
        v == [dt |-> d, n |-> Len(vals), raw |-> EncodeSeq(d, vals)]
    IN  /\ Whole(b)
        /\ Log(<<[op |-> "tsetattr", p |-> <<>>, b |-> b, name |-> 1, force |-> f, kind |-> "num", vdt |-> "<i8", vals |-> vals]
                 @@ (IF dt = "" THEN <<>> ELSE [dt |-> dt, text |-> dt]) @@ (IF n = 0 THEN <<>> ELSE [n |-> n])>>)
        /\ IF ~SetAllowed(b, 1, dt, n, f, Len(vals)) THEN Refused
           ELSE Res("ok") /\ AttrSet(b, 1, v) /\ attr' = [attr EXCEPT ![b] = { x \in @ : x[1] # 1 } \cup {<<1, v>>}] /\ UNCHANGED <<seq, type, hurt, dmg>>
AMake == \E d \in Cols, n \in {0, 2} :
    LET rows == [ i \in 1..n |-> <<10 * K + i>> ] IN
    /\ Fits2(d)
    /\ Log(<<[op |-> "tcreate", p |-> <<>>, b |-> d, dtype |-> "<i4", nmemb |-> 1, rows |-> rows, buf |-> 4]>>)
    /\ Res("ok") /\ disk' = SetKey(disk, d, Holding([EmptyMeta EXCEPT !.dtype = "<i4", !.nmemb = 1], rows, <<n>>))
    /\ seq' = SetKey(seq, d, rows) /\ attr' = SetKey(attr, d, {}) /\ type' = SetKey(type, d, "<i4") /\ Clean(d)
\* a byte of the only row with data gets another value
ADamage == \E b \in DOMAIN disk :
    /\ Whole(b) /\ Size(disk[b]) > 0
    /\ Log(<<[op |-> "damage", b |-> b, how |-> "flip", r |-> <<0, 1, 255>>]>>)
    /\ Res("ok") /\ dmg' = SetKey(dmg, b, [delta |-> 255, lost |-> FALSE]) /\ hurt' = hurt \cup {b} /\ UNCHANGED <<disk, seq, attr, type>>
ACut == \E b \in DOMAIN disk :
    /\ Whole(b) /\ Size(disk[b]) > 0
    /\ Log(<<[op |-> "damage", b |-> b, how |-> "cut", r |-> <<0, 2, 0>>]>>)
    /\ Res("ok") /\ dmg' = SetKey(dmg, b, [delta |-> 0, lost |-> TRUE]) /\ hurt' = hurt \cup {b} /\ UNCHANGED <<disk, seq, attr, type>>
Keep == UNCHANGED <<disk, dmg, ghost>>
ACheck == Log(<<[op |-> "tcheck", p |-> <<>>, bs |-> <<>>]>>) /\ Keep
          /\ Res(IF \A b \in Everything(<<>>) : Verdict(b) = "ok" THEN "ok" ELSE "err")
ALook == Log(<<[op |-> "tls", p |-> <<>>, b |-> <<>>, long |-> TRUE]>>) /\ Keep /\ Res("ok")
ACat == \E b \in Cols, o \in {0, 1, 9}, n \in {0, 1, 9} :
    /\ Whole(b) /\ Log(<<[op |-> "tcat", p |-> <<>>, b |-> b, bin |-> FALSE, off |-> o, cnt |-> n, buf |-> 4]>>) /\ Keep
    /\ IF ~Exists(b) THEN Res("err")
       ELSE /\ UNCHANGED hnd
            /\ LET r == RowRange(disk[b], o, n) IN reply' = [res |-> "ok", rows |-> GetRows(disk[b].data, disk[b].fsize, r.lo, r.n)]
AAttrs == \E b \in Cols : Log(<<[op |-> "tgetattr", p |-> <<>>, b |-> b, names |-> <<1>>, long |-> TRUE]>>) /\ Keep
                          /\ Res(IF 1 \in DOMAIN At(b).attrs THEN "ok" ELSE "err")

NT == Cardinality({ i \in 1..Len(ops) : ops[i].op \notin {"write", "setattr", "close"} })
MCNext == NT < MaxOps /\
    (("setup" \in Kinds /\ ASetup) \/ ("copy" \in Kinds /\ ACopy) \/ ("sample" \in Kinds /\ ASample) \/ ("repart" \in Kinds /\ ARepart)
     \/ ("rename" \in Kinds /\ ARename) \/ ("rm" \in Kinds /\ ARm) \/ ("setattr" \in Kinds /\ ASetAttr) \/ ("make" \in Kinds /\ AMake)
     \/ ("damage" \in Kinds /\ (ADamage \/ ACut)) \/ ("check" \in Kinds /\ ACheck) \/ ("ls" \in Kinds /\ ALook) \/ ("cat" \in Kinds /\ ACat)
     \/ ("attrs" \in Kinds /\ AAttrs))
MCSpec == MCInit /\ [][MCNext]_mcvars

\* columns hold the rows, attributes and type they were given, whatever files they are in (C20, C21, C28, C29)
Content == /\ DOMAIN disk = DOMAIN seq
           /\ \A b \in DOMAIN disk : RowsOf(disk[b]) = seq[b] /\ Pairs(disk[b].attrs) = attr[b] /\ disk[b].dtype = type[b]
\* files are filled evenly or as asked, and their checksums are those of their rows
Filled == \A b \in DOMAIN disk : LET c == disk[b] IN
    /\ Len(c.sum) = Len(c.fsize) /\ Size(c) = Len(seq[b])
    /\ \A i \in 1..Len(c.fsize) : Len(c.data[i]) = c.fsize[i] /\ c.sum[i] = RowBytes(c.dtype, c.data[i])
Even2 == \A b \in DOMAIN disk : \A i \in DOMAIN ops : (ops[i].op \in {"tcopy", "tsample"} /\ ops[i].d = b /\ i = Len(ops) /\ reply.res = "ok") =>
    \A x, y \in 1..Len(disk[b].fsize) : disk[b].fsize[x] - disk[b].fsize[y] \in {-1, 0, 1}
\* the verification tells the damaged columns apart (C22)
Tells == \A b \in DOMAIN disk : (Verdict(b) = "bad") <=> (b \in hurt)
Says == Len(ops) > 0 /\ ops[Len(ops)].op = "tcheck" => (reply.res = "ok") = (hurt = {})
\* what is printed is the range of the plain rows (C21)
Prints == Len(ops) > 0 /\ ops[Len(ops)].op = "tcat" /\ reply.res = "ok" =>
    LET o == ops[Len(ops)] s == seq[o.b] IN
    reply.rows = SubSeq(s, o.off + 1, IF o.off + o.cnt > Len(s) THEN Len(s) ELSE o.off + o.cnt)
Emit == "EMIT" \notin DOMAIN IOEnv
        \/ PrintT((IF MCView' = MCView THEN "LOOP " ELSE "OPS ") \o ToJson(ops'))
DCols == {<<1>>, <<2>>, <<3, 1>>}
TwoCols == {<<1>>, <<2>>}
DStripings == {<<>>, <<3>>, <<1, 0, 2>>, <<0>>}
AllKinds == {"setup", "copy", "sample", "repart", "rename", "rm", "setattr", "make", "damage", "check", "ls", "cat", "attrs"}
=============================================================================
