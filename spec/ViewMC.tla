------------------------------ MODULE ViewMC ------------------------------
(* The iterator that walks a view, as a state machine: an odometer over the    *)
(* indices and a pointer moved by increments.  Checked: it visits every element *)
(* once, in C order, at the address View gives, also when the walk is broken    *)
(* into pieces of any length.  Its initial states (every small shape and        *)
(* stride vector) are printed and replayed into the library.                    *)
EXTENDS View, Json, IOUtils
CONSTANTS MaxDim, MaxVol, Extents
Units == {2, -2, 6, 0, 5, -12}   \* byte strides

VARIABLES v, ix, ptr, n, seen
vars == <<v, ix, ptr, n, seen>>
W == 2
Shapes == UNION { [1..d -> Extents] : d \in 1..MaxDim }
Init == \E dims \in Shapes : \E st \in [1..Len(dims) -> Units] :
           /\ Volume(dims) <= MaxVol
           /\ v = [dims |-> dims, strides |-> st, base |-> 0, w |-> W]
           /\ ix = [ i \in 1..Len(dims) |-> 0 ] /\ ptr = 0 /\ n = 0 /\ seen = <<>>
\* one advance: visit, then add one to the last index and carry
RECURSIVE Carry(_, _, _, _)
Carry(view, x, p, i) ==
    IF i = 0 THEN [ix |-> x, ptr |-> p]
    ELSE IF x[i] + 1 < view.dims[i] THEN [ix |-> [x EXCEPT ![i] = @ + 1], ptr |-> p + view.strides[i]]
    ELSE Carry(view, [x EXCEPT ![i] = 0], p - (view.dims[i] - 1) * view.strides[i], i - 1)
Advance == /\ n < Volume(v.dims)
           /\ seen' = Append(seen, ptr) /\ n' = n + 1 /\ UNCHANGED v
           /\ LET c == Carry(v, ix, ptr, Len(ix)) IN ix' = c.ix /\ ptr' = c.ptr
Next == Advance
Spec == Init /\ [][Next]_vars
Walks == /\ seen = SubSeq(Offsets(v), 1, n)
         /\ n < Volume(v.dims) => ptr = Address(v, ix)
         /\ n = Volume(v.dims) => ptr = v.base      \* back at the beginning
Order == n < Volume(v.dims) => ix = Index(v.dims, n)
Lines == { i \in 1..Len(v.dims) : v.dims[i] > 1 }
\* strides that nest make disjoint elements (so a read into such a view is meaningful)
Nested == \A i, j \in Lines : i < j => (IF v.strides[i] < 0 THEN -v.strides[i] ELSE v.strides[i])
             >= v.dims[j] * (IF v.strides[j] < 0 THEN -v.strides[j] ELSE v.strides[j])
Sound == (Nested /\ \A i \in Lines : v.strides[i] \notin -(W-1)..(W-1)) => Disjoint(v)
Inv == Walks /\ Order /\ Sound
EmitInit == n > 0 \/ "EMIT" \notin DOMAIN IOEnv
            \/ PrintT("VIEW " \o ToJson([dims |-> v.dims, strides |-> v.strides, w |-> W, disjoint |-> Disjoint(v)]))
=============================================================================
