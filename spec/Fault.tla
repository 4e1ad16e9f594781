------------------------------- MODULE Fault -------------------------------
(* What a failed or interrupted operation may leave behind.  A file is the      *)
(* sequence of its rows; a row is whatever is there (its bytes, or its values). *)
EXTENDS Integers, Sequences

\* first: rows of the file before it began, last: what is there afterwards,
\* lo..hi-1: the rows (0-based) of this file that the operation was asked to write
NoRow == <<>>
KeptOutside(first, last, lo, hi, Same(_, _)) ==
    /\ Len(last) >= Len(first)
    /\ \A k \in 1..Len(last) :
         (k <= lo \/ k > hi) =>
            IF k <= Len(first) THEN Same(last[k], first[k])
            ELSE k <= hi /\ Same(last[k], NoRow)      \* a gap the operation skipped reads as zeros
=============================================================================
