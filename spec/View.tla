------------------------------- MODULE View -------------------------------
(* Memory views: which bytes of a buffer a transfer reads or writes.           *)
(* A view is [dims, strides, base, w]: extents, byte strides, byte offset of   *)
(* element <<0,...,0>> in the buffer, element width.                           *)
EXTENDS BFTypes

Volume(dims) == FoldLeft(LAMBDA acc, d : acc * d, 1, dims)
\* element k (0-based) of the view in C order, as a vector of indices
Index(dims, k) == [ i \in 1..Len(dims) |->
                      (k \div Volume(SubSeq(dims, i + 1, Len(dims)))) % dims[i] ]
Address(v, ix) == FoldLeft(LAMBDA acc, i : acc + ix[i] * v.strides[i], v.base, [ i \in 1..Len(ix) |-> i ])
\* byte offsets of the elements in C order
Offsets(v) == [ k \in 1..Volume(v.dims) |-> Address(v, Index(v.dims, k - 1)) ]
Cells(v) == UNION { {o + j : j \in 0..(v.w - 1)} : o \in { Offsets(v)[k] : k \in 1..Volume(v.dims) } }
Disjoint(v) == Cardinality(Cells(v)) = v.w * Volume(v.dims)
CStrides(dims, w) == [ i \in 1..Len(dims) |-> w * Volume(SubSeq(dims, i + 1, Len(dims))) ]

\* the buffer holds the values (C order) in type d at the places the view names
Holds(mem, v, d, vals) ==
    LET O == Offsets(v) IN
    \A k \in 1..Len(O) : SubSeq(mem, O[k] + 1, O[k] + v.w) = Encode(d, vals[k])
\* the buffer after storing vals (element 0..n-1 of the view): nothing else changes
Stored(mem, v, d, vals) ==
    LET O == Offsets(v) IN
    FoldLeft(LAMBDA m, k : LET b == Encode(d, vals[k]) IN
                 [ j \in 1..Len(m) |-> IF j > O[k] /\ j <= O[k] + v.w THEN b[j - O[k]] ELSE m[j] ],
             mem, [ k \in 1..Len(vals) |-> k ])
=============================================================================
