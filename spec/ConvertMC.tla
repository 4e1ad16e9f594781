----------------------------- MODULE ConvertMC -----------------------------
(* Convert agrees with the abstract values: an element of type s that stands for v becomes an element of type d that     *)
(* stands for v, whenever d can represent v; conversions that can be undone are undone.                                  *)
EXTENDS Convert
CONSTANT Limit
VARIABLES s, d, v
Vals == {-Limit, -65537, -32769, -32768, -256, -255, -129, -128, -127, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, Limit}
        \cup {-Limit + 1, Limit - 1, 100003, -7777}
Real4 == { n \in DOMAIN DTypes : DTypes[n].kw \in NumKW \cup CplxKW }
Signed(n) == DTypes[n].k # "u"
Init == /\ s \in Real4 /\ d \in Real4 /\ Convertible(s, d) /\ v \in Vals /\ (v < 0 => Signed(s))
Next == UNCHANGED <<s, d, v>>
Spec == Init /\ [][Next]_<<s, d, v>>
x == ConvertElement(s, d, Encode(s, v))
Same == (v >= 0 \/ Signed(d)) => x = Encode(d, v)
Back == (v >= 0 \/ Signed(d)) => ConvertElement(d, s, x) = Encode(s, v)
Modular == (v < 0 /\ ~Signed(d) /\ DTypes[s].k = "i" /\ DTypes[s].w >= DTypes[d].w) => ConvertElement(d, s, x) = Encode(s, v) \/ DTypes[s].w > DTypes[d].w
Det == (v >= 0 \/ Signed(d)) => Determined(s, d, Encode(s, v))
Inv == Same /\ Back /\ Modular /\ Det
=============================================================================
