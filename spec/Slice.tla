------------------------------- MODULE Slice -------------------------------
(* What an index expression selects from a sequence of n rows.  An index is     *)
(*   [k |-> "int", i |-> x]    one row, counted from the end when negative       *)
(*   [k |-> "all"]             the ellipsis                                      *)
(*   [k |-> "slice", a, o, s]  start, stop and step, each <<>> (absent) or <<x>> *)
EXTENDS Integers, Sequences

Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y

\* a bound, moved into 0..n
Clip(x, n) == IF x < 0 THEN Hi(x + n, 0) ELSE Lo(x, n)

\* [ok, lo, n]: n rows from row lo, or an index that is refused
Refused == [ok |-> FALSE, lo |-> 0, n |-> 0]
Select(ix, n) ==
    CASE ix.k = "all" -> [ok |-> TRUE, lo |-> 0, n |-> n]
      [] ix.k = "int" -> IF ix.i >= -n /\ ix.i < n
                         THEN [ok |-> TRUE, lo |-> IF ix.i < 0 THEN ix.i + n ELSE ix.i, n |-> 1]
                         ELSE Refused
      [] OTHER -> IF ix.s # <<>> /\ ix.s # <<1>> THEN Refused
                  ELSE LET lo == IF ix.a = <<>> THEN 0 ELSE Clip(ix.a[1], n)
                           hi == IF ix.o = <<>> THEN n ELSE Clip(ix.o[1], n)
                       IN  [ok |-> TRUE, lo |-> lo, n |-> Hi(hi - lo, 0)]
=============================================================================
