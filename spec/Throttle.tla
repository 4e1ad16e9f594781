------------------------------ MODULE Throttle ------------------------------
(* How a collective transfer is carried out.  The ranks are cut into segments   *)
(* of neighbours; each segment is collected at one of its ranks, which alone    *)
(* touches the files; the segments are dealt to groups, and a group works on    *)
(* one of its segments at a time.  So at most as many ranks as there are groups *)
(* have files open.  Every collective call is modelled with the strictest       *)
(* synchronisation MPI allows: no rank leaves before all have come.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N,          \* ranks
          MaxSize,    \* rows of a rank: 0..MaxSize
          Concs,      \* concurrency limits asked for
          Thrs,       \* aggregation thresholds
          Bads,       \* sets of ranks that cannot convert their rows
          IOBads      \* sets of ranks whose file operations fail
R == 0..(N - 1)
VARIABLES sizes, conc, thr, bad, iobad, room,   \* the call; room: rows left in the column
          pc,         \* where a rank is
          seg,        \* loop counter
          err,        \* what it knows about failures
          cnt,        \* calls made on a communicator, by rank
          val,        \* what was contributed to them
          kind,       \* which call it was
          open,       \* ranks with files open
          log,        \* rows written: sequence of [row, from, by]
          res         \* outcome
vars == <<sizes, conc, thr, bad, iobad, room, pc, seg, err, cnt, val, kind, open, log, res>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(s, r) == IF r < 0 THEN 0 ELSE s[r] + SumTo(s, r - 1)
Total == SumTo(sizes, N - 1)
Offset(r) == SumTo(sizes, r - 1)

\* --- segments and groups
Limit == IF conc <= 0 THEN N ELSE conc
SegSize == Min2(Max2(Total \div Limit, 1), thr)
\* colour of rank r and the rows gathered in its segment before it
RECURSIVE Walk(_)
Walk(r) == IF r < 0 THEN [color |-> 0, size |-> 0]
           ELSE LET w == Walk(r - 1)
                    s == w.size + sizes[r] IN
                IF s > SegSize THEN [color |-> w.color + 1, size |-> 0] ELSE [color |-> w.color, size |-> s]
Color(r) == Walk(r - 1).color
NSeg == Color(N - 1) + 1
Idle(r) == sizes[r] = 0
SegmentOf(r) == IF Idle(r) THEN N + 1 ELSE Color(r)
GroupOf(r) == IF Idle(r) THEN Limit + 1 ELSE (Color(r) * Limit) \div NSeg
Group(g) == { r \in R : GroupOf(r) = g }
Members(s, g) == { r \in R : SegmentOf(r) = s /\ GroupOf(r) = g }
First(g) == CHOOSE s \in { SegmentOf(r) : r \in Group(g) } : \A r \in Group(g) : s <= SegmentOf(r)
Last(g) == CHOOSE s \in { SegmentOf(r) : r \in Group(g) } : \A r \in Group(g) : s >= SegmentOf(r)
\* the rank with the fewest rows, the first of them
Leader(ms) == CHOOSE r \in ms : \A q \in ms : sizes[r] < sizes[q] \/ (sizes[r] = sizes[q] /\ r <= q)

\* --- collective calls
World == <<"W", 0>>
GComm(r) == <<"G", GroupOf(r)>>
SComm(r) == <<"S", SegmentOf(r)>>
Of(c) == CASE c[1] = "W" -> R
           [] c[1] = "G" -> Group(c[2])
           [] OTHER -> { r \in R : SegmentOf(r) = c[2] }
Comms == {World} \cup { <<"G", g>> : g \in 0..(N + 8) } \cup { <<"S", s>> : s \in 0..(N + 1) }
Count(c, r) == IF <<c, r>> \in DOMAIN cnt THEN cnt[<<c, r>>] ELSE 0
Put(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]

\* rank r comes to its next call on c, with value v, and then waits at `next`
Arrive(r, c, what, v, next) ==
    LET k == Count(c, r) + 1 IN
    /\ cnt' = Put(cnt, <<c, r>>, k)
    /\ val' = Put(val, <<c, k, r>>, v)
    /\ kind' = Put(kind, <<c, k, r>>, what)
    /\ pc' = [pc EXCEPT ![r] = next]
Here(r, c) == \A q \in Of(c) : Count(c, q) >= Count(c, r)
\* the largest value contributed
Largest(r, c) ==
    LET k == Count(c, r)
        vs == { val[<<c, k, q>>] : q \in Of(c) }
    IN  CHOOSE v \in vs : \A w \in vs : w <= v

\* --- a rank's steps: each ends at the next call, or while files are open
Same == UNCHANGED <<sizes, conc, thr, bad, iobad, room>>
\* at the top of the loop over the segments of the group
Top(r, s, x) ==
    /\ seg' = [seg EXCEPT ![r] = s] /\ err' = [err EXCEPT ![r] = x]
    /\ IF s > Last(GroupOf(r)) THEN Arrive(r, World, "done", x, "done") ELSE Arrive(r, GComm(r), "turn", x, "turn")
Start(r) == /\ pc[r] = "start" /\ Arrive(r, World, "fit", IF Total > room THEN 1 ELSE 0, "fit")
            /\ UNCHANGED <<seg, err, open, log, res>>
Fit(r) == /\ pc[r] = "fit" /\ Here(r, World)
          /\ IF Largest(r, World) > 0
             THEN pc' = [pc EXCEPT ![r] = "end"] /\ res' = [res EXCEPT ![r] = "err"] /\ UNCHANGED <<seg, err, cnt, val, kind>>
             ELSE Top(r, First(GroupOf(r)), 0) /\ UNCHANGED res
          /\ UNCHANGED <<open, log>>
\* its turn: conversion of the own rows, then the rows of the segment are collected
Turn(r) == /\ pc[r] = "turn" /\ Here(r, GComm(r))
           /\ LET x == Largest(r, GComm(r)) IN
              IF x > 0 \/ SegmentOf(r) # seg[r] THEN Top(r, seg[r] + 1, x)
              ELSE Arrive(r, SComm(r), "converted", IF r \in bad /\ ~Idle(r) THEN 1 ELSE 0, "gathered") /\ UNCHANGED <<seg, err>>
           /\ UNCHANGED <<open, log, res>>
Ldr(r) == Leader(Members(SegmentOf(r), GroupOf(r)))
Gathered(r) == /\ pc[r] = "gathered" /\ Here(r, SComm(r))
               /\ LET x == Largest(r, SComm(r)) IN
                  IF x > 0 THEN Top(r, seg[r] + 1, x) /\ UNCHANGED open
                  ELSE IF Ldr(r) = r /\ ~Idle(r)            \* only with rows are files touched
                  THEN pc' = [pc EXCEPT ![r] = "write"] /\ open' = open \cup {r} /\ UNCHANGED <<seg, err, cnt, val, kind>>
                  ELSE Arrive(r, SComm(r), "acted", 0, "acted") /\ UNCHANGED <<seg, err, open>>
               /\ UNCHANGED <<log, res>>
\* the first of the segment says where it begins
Begin(r) == LET ms == Members(SegmentOf(r), GroupOf(r)) IN Offset(CHOOSE q \in ms : \A p \in ms : q <= p)
RECURSIVE RowsFrom(_, _, _)
RowsFrom(ms, q, at) ==        \* the rows of the members from rank q on, as written from row `at`
    IF q >= N THEN <<>>
    ELSE IF q \notin ms THEN RowsFrom(ms, q + 1, at)
    ELSE [ k \in 1..sizes[q] |-> [row |-> at + k - 1, from |-> q, nth |-> k] ] \o RowsFrom(ms, q + 1, at + sizes[q])
Write(r) == /\ pc[r] = "write"
            /\ IF r \in iobad THEN Arrive(r, SComm(r), "acted", 1, "acted") /\ UNCHANGED log
               ELSE /\ Arrive(r, SComm(r), "acted", 0, "acted")
                    /\ log' = log \o RowsFrom(Members(SegmentOf(r), GroupOf(r)), 0, Begin(r))
            /\ open' = open \ {r}
            /\ UNCHANGED <<seg, err, res>>
Acted(r) == /\ pc[r] = "acted" /\ Here(r, SComm(r))
            /\ Top(r, seg[r] + 1, Largest(r, SComm(r)))
            /\ UNCHANGED <<open, log, res>>
Done(r) == /\ pc[r] = "done" /\ Here(r, World)
           /\ res' = [res EXCEPT ![r] = IF Largest(r, World) > 0 THEN "err" ELSE "ok"]
           /\ pc' = [pc EXCEPT ![r] = "end"]
           /\ UNCHANGED <<seg, err, cnt, val, kind, open, log>>
AllDone == \A r \in R : pc[r] = "end"
Next == (Same /\ \E r \in R : Start(r) \/ Fit(r) \/ Turn(r) \/ Gathered(r) \/ Write(r) \/ Acted(r) \/ Done(r))
        \/ (AllDone /\ UNCHANGED vars)

Init == /\ sizes \in [R -> 0..MaxSize] /\ conc \in Concs /\ thr \in Thrs /\ bad \in Bads /\ iobad \in IOBads
        /\ room \in {Total, Total - 1} /\ room >= 0
        /\ pc = [ r \in R |-> "start" ] /\ seg = [ r \in R |-> 0 ] /\ err = [ r \in R |-> 0 ]
        /\ cnt = <<>> /\ val = <<>> /\ kind = <<>> /\ open = {} /\ log = <<>> /\ res = [ r \in R |-> "none" ]
        /\ (room < Total => (bad = {} /\ iobad = {}))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
LimitKept == Cardinality(open) <= Limit
\* the calls made on a communicator are the same on all its ranks
Matched == \A k \in DOMAIN kind : \A q \in Of(k[1]) : <<k[1], k[2], q>> \in DOMAIN kind => kind[<<k[1], k[2], q>>] = kind[k]
\* every row written is the right row of the right rank, and is written once
Right == \A i \in 1..Len(log) : log[i].row = Offset(log[i].from) + log[i].nth - 1
Once == \A i, j \in 1..Len(log) : i # j => log[i].row # log[j].row
Complete == (AllDone /\ \E r \in R : res[r] = "ok") => Len(log) = Total
Agreed == AllDone => \A r, q \in R : res[r] = res[q]
\* the outcome is what the call deserves
LeaderOf(s) == Leader({ r \in R : SegmentOf(r) = s })
Deserved == IF Total > room THEN "err"
            ELSE IF \E r \in bad : ~Idle(r) THEN "err"
            ELSE IF \E r \in R : ~Idle(r) /\ Ldr(r) \in iobad THEN "err"
            ELSE "ok"
Outcome == AllDone => \A r \in R : res[r] = Deserved
Untouched == Total > room => log = <<>>
Ends == <>AllDone
\* no segment exceeds the bound by more than its last rank
Bounded == \A s \in 0..NSeg : LET ms == { r \in R : SegmentOf(r) = s } IN
    ms # {} => (LET l == CHOOSE r \in ms : \A q \in ms : q <= r IN
                SumTo([ r \in R |-> IF r \in ms /\ r # l THEN sizes[r] ELSE 0 ], N - 1) <= Max2(SegSize, 0))

\* the calls, as tests for the real code; nothing is explored then
Emit == IF "EMIT" \notin DOMAIN IOEnv THEN TRUE
        ELSE PrintT("CALL " \o ToJson([sizes |-> [ i \in 1..N |-> sizes[i - 1] ], conc |-> conc, thr |-> thr,
                     bad |-> [ i \in 1..N |-> (i - 1) \in bad ], iobad |-> [ i \in 1..N |-> (i - 1) \in iobad ],
                     room |-> room])) /\ FALSE
=============================================================================
