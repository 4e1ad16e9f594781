------------------------------ MODULE PyAttrMC ------------------------------
(* Small attribute values of every kind: what is shown is what was stored, and    *)
(* values that differ are stored differently.                                     *)
EXTENDS PyFile, Json, IOUtils
CONSTANTS Chars, MaxStr, MaxList, Types, MaxArr, MaxRaw
VARIABLES v
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Strs == { [k |-> "str", s |-> s] : s \in Seqs(Chars, MaxStr) }
Words == { s \in Seqs(Chars, MaxStr) : s = <<>> \/ s[Len(s)] # 0 }
Lists == { [k |-> "strs", l |-> l] : l \in Seqs(Words, MaxList) \ {<<>>} }
Arrays == UNION { { [k |-> "arr", dt |-> d, n |-> n, raw |-> [ i \in 1..(n * DTypes[d].w) |-> r[IF i \in {1, 4, 5} THEN 1 ELSE Len(r)] ]] : r \in [1..MaxRaw -> {0, 1, 255}] }
                  : d \in Types, n \in 0..MaxArr }
Values == Strs \cup Lists \cup Arrays
RoundTrip == Shown(Stored(v)) = v
WellFormed == LET s == Stored(v) IN Len(s.raw) = s.n * DTypes[s.dt].w /\ s.dt \in DOMAIN DTypes
\* strings and numbers are never taken for one another
Apart == Shown(Stored(v)).k = v.k
Case == "EMIT" \notin DOMAIN IOEnv \/ PrintT("CALL " \o ToJson(v))
AttrSpec == v \in Values /\ Init /\ [][UNCHANGED <<v, vars>>]_<<v, vars>>
DTs == { d \in DOMAIN DTypes : d \in {"<i4", ">u2", "<f8", ">c8", "<i1"} }
=============================================================================
