------------------------------ MODULE Exchange ------------------------------
(* Exchange of items between ranks: what every rank ends up with, as a function *)
(* of what was sent, and the ways of carrying it out.  Ranks are 1..N.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* layout without gaps
Packed(c) == [ i \in 1..Len(c) |-> Sum(SubSeq(c, 1, i - 1)) ]
Untouched == -1
\* what rank d holds afterwards in its buffer of `len` items; send[s]: the buffer of rank s,
\* cnt[s][d] items for d begin at sd[s][d], and go to rd[d][s]
Received(d, len, send, cnt, sd, rd) ==
    [ p \in 1..len |->
        LET src == { s \in 1..Len(send) : rd[d][s] < p /\ p <= rd[d][s] + cnt[s][d] } IN
        IF src = {} THEN Untouched
        ELSE LET s == CHOOSE s \in src : TRUE IN send[s][sd[s][d] + p - rd[d][s]] ]
Gathered(parts) == FlattenSeq(parts)
\* rank i's share of the root's buffer
Scattered(all, ns, i) == LET b == Packed(ns)[i] IN SubSeq(all, b + 1, b + ns[i])
\* the first rank (from 0) with the extreme value
Extreme(vals, max) == CHOOSE i \in 0..(Len(vals) - 1) :
    /\ \A j \in 1..Len(vals) : IF max THEN vals[j] <= vals[i + 1] ELSE vals[j] >= vals[i + 1]
    /\ \A j \in 1..i : vals[j] # vals[i + 1]
=============================================================================
