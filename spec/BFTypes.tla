------------------------------ MODULE BFTypes ------------------------------
(* Element types of bigfile: names, widths, which conversions exist, and the   *)
(* bytes that represent a (small) value on disk and in memory.                 *)
(*                                                                             *)
(* A type is a string: byte order ("<" or ">"), kind, width -- e.g. "<i4".     *)
(* Abstract values are small integers.  For complex types the value v stands   *)
(* for the complex number v + (v+1)I, so that exchanged parts are visible.     *)
(* For kinds "S" and for one-byte kinds the bytes are v, v+1, ... (mod 256).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Orders == {"<", ">"}
NumKW  == {<<"i","4">>, <<"i","8">>, <<"u","4">>, <<"u","8">>, <<"f","4">>, <<"f","8">>}
CplxKW == {<<"c","8">>, <<"c","16">>}
PassKW == {<<"i","1">>, <<"i","2">>, <<"u","1">>, <<"u","2">>, <<"b","1">>, <<"a","1">>}
          \cup {<<"S", w>> : w \in {"1","2","3","4","5","6","7","8","9","10","11","12","13","14","15","16"}}
AllKW == NumKW \cup CplxKW \cup PassKW

WidthOf(w) == CASE w="1" -> 1 [] w="2" -> 2 [] w="3" -> 3 [] w="4" -> 4 [] w="5" -> 5
                [] w="6" -> 6 [] w="7" -> 7 [] w="8" -> 8 [] w="9" -> 9 [] w="10" -> 10
                [] w="11" -> 11 [] w="12" -> 12 [] w="13" -> 13 [] w="14" -> 14
                [] w="15" -> 15 [] w="16" -> 16

\* name -> [e, k, w, kw]
DTypes == LET T == { <<e, kw>> : e \in Orders, kw \in AllKW }
              N(t) == t[1] \o t[2][1] \o t[2][2]
              inv == [ n \in { N(t) : t \in T } |-> CHOOSE t \in T : N(t) = n ]
          IN  [ n \in DOMAIN inv |-> [e |-> inv[n][1], k |-> inv[n][2][1],
                                      w |-> WidthOf(inv[n][2][2]), kw |-> inv[n][2]] ]

Known(d) == d \in DOMAIN DTypes

\* Can elements of type src be stored into elements of type dst ?
Convertible(src, dst) ==
    LET s == DTypes[src].kw
        d == DTypes[dst].kw
    IN  \/ s = d
        \/ s \in NumKW /\ d \in NumKW
        \/ s = <<"b","1">> /\ d \in NumKW
        \/ s \in CplxKW /\ d \in CplxKW

-----------------------------------------------------------------------------
(* Bytes *)
Pow2(n) == 2^n
Abs(x) == IF x < 0 THEN -x ELSE x
\* position of the leading bit of x > 0
Lead(x) == CHOOSE e \in 0..30 : Pow2(e) <= x /\ (e = 30 \/ x < Pow2(e+1))

Rev(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]

\* little-endian two's complement, w bytes, |v| < 2^31
IntLE(v, w) == [ j \in 1..w |-> IF j <= 3 THEN (v \div (256^(j-1))) % 256
                                ELSE IF j = 4 THEN (v \div 16777216) % 256
                                ELSE IF v < 0 THEN 255 ELSE 0 ]

\* little-endian IEEE single, |v| < 2^24
F4LE(v) == IF v = 0 THEN <<0,0,0,0>>
           ELSE LET a == Abs(v)
                    e == Lead(a)
                    x == 127 + e
                    m == IF e <= 23 THEN (a - Pow2(e)) * Pow2(23 - e) ELSE 0
                    s == IF v < 0 THEN 1 ELSE 0
                IN  << m % 256, (m \div 256) % 256, (x % 2) * 128 + (m \div 65536),
                       s * 128 + (x \div 2) >>

\* little-endian IEEE double, |v| < 2^20
F8LE(v) == IF v = 0 THEN <<0,0,0,0,0,0,0,0>>
           ELSE LET a == Abs(v)
                    e == Lead(a)
                    x == 1023 + e
                    m == (a - Pow2(e)) * Pow2(20 - e)
                    s == IF v < 0 THEN 1 ELSE 0
                IN  << 0, 0, 0, 0, m % 256, (m \div 256) % 256,
                       (x % 16) * 16 + (m \div 65536), s * 128 + (x \div 16) >>

\* the bytes of value v in type d, in the byte order of d
Encode(d, v) ==
    LET t == DTypes[d]
        O(s) == IF t.e = "<" THEN s ELSE Rev(s)
    IN  CASE t.k \in {"i", "u"} -> O(IntLE(v, t.w))
          [] t.k = "f" /\ t.w = 4 -> O(F4LE(v))
          [] t.k = "f" /\ t.w = 8 -> O(F8LE(v))
          [] t.k = "c" /\ t.w = 8 -> O(F4LE(v)) \o O(F4LE(v + 1))
          [] t.k = "c" /\ t.w = 16 -> O(F8LE(v)) \o O(F8LE(v + 1))
          [] OTHER -> [ j \in 1..t.w |-> (v + j - 1) % 256 ]

EncodeSeq(d, s) == FoldLeft(LAMBDA acc, v : acc \o Encode(d, v), <<>>, s)
SumSeq(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
ByteSum(d, v) == SumSeq(Encode(d, v))
ByteSumSeq(d, s) == FoldLeft(LAMBDA acc, v : acc + ByteSum(d, v), 0, s)
ByteSumRows(d, rows) == FoldLeft(LAMBDA acc, r : acc + ByteSumSeq(d, r), 0, rows)
=============================================================================
