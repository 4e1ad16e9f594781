------------------------------ MODULE SliceMC ------------------------------
(* Select against the definition row by row: row r of n is selected by a bound   *)
(* that is not negative when it is not before (after) it, and by a negative one   *)
(* when the same holds for its distance from the end.                             *)
EXTENDS Slice, Json, IOUtils, TLC
CONSTANTS MaxN, Bound
VARIABLES n, ix
Ints == (0 - Bound)..Bound
Opt == {<<>>} \cup { <<x>> : x \in Ints }
Indices == { [k |-> "all"] } \cup { [k |-> "int", i |-> x] : x \in Ints }
           \cup { [k |-> "slice", a |-> a, o |-> o, s |-> s] : a \in Opt, o \in Opt, s \in {<<>>, <<1>>, <<2>>, <<-1>>, <<0>>} }
Start == n \in 0..MaxN /\ ix \in Indices
Spec == Start /\ [][UNCHANGED <<n, ix>>]_<<n, ix>>

From(b, r) == b = <<>> \/ (b[1] >= 0 /\ r >= b[1]) \/ (b[1] < 0 /\ r - n >= b[1])
Until(b, r) == b = <<>> \/ (b[1] >= 0 /\ r < b[1]) \/ (b[1] < 0 /\ r - n < b[1])
Chosen == CASE ix.k = "all" -> 0..(n - 1)
            [] ix.k = "int" -> { r \in 0..(n - 1) : r = ix.i \/ r - n = ix.i }
            [] OTHER -> { r \in 0..(n - 1) : From(ix.a, r) /\ Until(ix.o, r) }
RowsOf(s) == s.lo..(s.lo + s.n - 1)
Agrees == LET s == Select(ix, n) IN
    /\ s.ok => RowsOf(s) = Chosen /\ s.lo >= 0 /\ s.lo + s.n <= n
    /\ ix.k = "int" => (s.ok <=> Chosen # {})
    /\ (ix.k = "slice" /\ ~s.ok) => ix.s \notin {<<>>, <<1>>}
    /\ ix.k = "all" => s.ok
Case == "EMIT" \notin DOMAIN IOEnv \/ PrintT("CALL " \o ToJson([n |-> n, ix |-> ix]))
Inv == Agrees /\ Case
=============================================================================
