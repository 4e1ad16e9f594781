------------------------------ MODULE Convert ------------------------------
(* What happens to one element when it moves between two element types.        *)
(* Numbers are taken apart into sign, magnitude bits (least significant first)  *)
(* and a power of two, because TLC's integers are too small for the types.      *)
EXTENDS BFTypes

BitsOfByte(x) == [ i \in 1..8 |-> (x \div Pow2(i - 1)) % 2 ]
Bits(bytes) == TLCEval([ i \in 1..(8 * Len(bytes)) |-> (bytes[(i - 1) \div 8 + 1] \div Pow2((i - 1) % 8)) % 2 ])
ByteAt(b, o) == b[o] + 2 * b[o+1] + 4 * b[o+2] + 8 * b[o+3] + 16 * b[o+4] + 32 * b[o+5] + 64 * b[o+6] + 128 * b[o+7]
Bytes(bits) == TLCEval([ j \in 1..(Len(bits) \div 8) |-> ByteAt(bits, 8 * (j - 1) + 1) ])
Zeros(n) == TLCEval([ i \in 1..n |-> 0 ])
Extend(bits, n, fill) == TLCEval([ i \in 1..n |-> IF i <= Len(bits) THEN bits[i] ELSE fill ])
IsZero(bits) == \A i \in 1..Len(bits) : bits[i] = 0
RECURSIVE TopFrom(_, _)
TopFrom(bits, i) == IF bits[i] = 1 THEN i ELSE TopFrom(bits, i - 1)
Top(bits) == TopFrom(bits, Len(bits))
RECURSIVE FirstZero(_, _)
FirstZero(bits, i) == IF i > Len(bits) \/ bits[i] = 0 THEN i ELSE FirstZero(bits, i + 1)
\* bits + 1, one bit longer
PlusOne(bits) ==
    LET n == Len(bits)
        first == FirstZero(bits, 1)
    IN  TLCEval([ i \in 1..(n + 1) |-> IF i < first THEN 0 ELSE IF i = first THEN 1 ELSE IF i <= n THEN bits[i] ELSE 0 ])
Negate(bits) == SubSeq(PlusOne(TLCEval([ i \in 1..Len(bits) |-> 1 - bits[i] ])), 1, Len(bits))

-----------------------------------------------------------------------------
\* floating point formats: precision, exponent bias, width
Fmt(w) == IF w = 4 THEN [p |-> 24, bias |-> 127, w |-> 4, eb |-> 8] ELSE [p |-> 53, bias |-> 1023, w |-> 8, eb |-> 11]
Inf(s) == [k |-> "inf", s |-> s]
NaN == [k |-> "nan", s |-> 0]
Num(s, m, e) == [k |-> "num", s |-> s, m |-> m, e |-> e]

\* the number that little-endian bytes in type kind k stand for
DecInt(bits, signed) ==
    LET n == Len(bits) IN
    IF signed /\ bits[n] = 1 THEN Num(1, Negate(bits), 0) ELSE Num(0, bits, 0)
FieldVal(bits, lo, n) == SumSeq([ i \in 1..n |-> bits[lo + i - 1] * Pow2(i - 1) ])
DecFloat(bits, f) ==
    LET s == bits[8 * f.w]
        x == FieldVal(bits, f.p, f.eb)
        frac == SubSeq(bits, 1, f.p - 1)
    IN  IF x = Pow2(f.eb) - 1 THEN (IF IsZero(frac) THEN Inf(s) ELSE NaN)
        ELSE IF x = 0 THEN Num(s, frac \o <<0>>, 1 - f.bias - (f.p - 1))
        ELSE Num(s, frac \o <<1>>, x - f.bias - (f.p - 1))

\* round m * 2^e to a multiple of 2^q: the multiple, to nearest, ties to even
RoundBits(m, e, q) ==
    LET k == q - e IN
    IF k <= 0 THEN Zeros(-k) \o m
    ELSE IF k > Len(m) THEN <<0>>
    ELSE LET keep == SubSeq(m, k + 1, Len(m))
             half == m[k] = 1
             sticky == \E i \in 1..(k - 1) : m[i] = 1
             odd == Len(keep) > 0 /\ keep[1] = 1
         IN  IF half /\ (sticky \/ odd) THEN PlusOne(keep) ELSE keep \o <<0>>

EncFloat(v, f) ==
    LET Put(s, x, frac) == frac \o TLCEval([ i \in 1..f.eb |-> (x \div Pow2(i - 1)) % 2 ]) \o <<s>> IN
    CASE v.k = "inf" -> Put(v.s, Pow2(f.eb) - 1, Zeros(f.p - 1))
      [] v.k = "nan" -> Put(0, Pow2(f.eb) - 1, Zeros(f.p - 2) \o <<1>>)
      [] v.k = "num" /\ IsZero(v.m) -> Put(v.s, 0, Zeros(f.p - 1))
      [] OTHER ->
         LET emin == 1 - f.bias
             E == Top(v.m) - 1 + v.e
             q == (IF E < emin THEN emin ELSE E) - (f.p - 1)
             r == RoundBits(v.m, v.e, q)
         IN  IF IsZero(r) THEN Put(v.s, 0, Zeros(f.p - 1))
             ELSE LET t == Top(r)       \* may have been carried into one more bit
                      E2 == t - 1 + q
                      norm == SubSeq(Zeros(Len(r)) \o r, Len(r) + t - f.p + 1, Len(r) + t)
                  IN  IF t < f.p THEN Put(v.s, 0, Extend(r, f.p - 1, 0))
                      ELSE IF E2 > f.bias THEN Put(v.s, Pow2(f.eb) - 1, Zeros(f.p - 1))
                      ELSE Put(v.s, E2 + f.bias, SubSeq(norm, 1, f.p - 1))

\* integer part as 8w + 1 bits of magnitude; whether it fits
Trunc(v) == IF v.e >= 0 THEN Zeros(v.e) \o v.m
            ELSE IF -v.e >= Len(v.m) THEN <<0>> ELSE SubSeq(v.m, 1 - v.e, Len(v.m))
Fits(v, t) ==
    /\ v.k = "num"
    /\ LET i == Trunc(v)
           n == 8 * t.w
           top == IF IsZero(i) THEN 0 ELSE Top(i)
       IN  IF t.k = "u" THEN (v.s = 0 \/ top = 0) /\ top <= n
           ELSE top <= n - 1 \/ (v.s = 1 /\ top = n /\ \A j \in 1..(n - 1) : i[j] = 0)
\* modular
EncInt(v, w) == LET i == Extend(Trunc(v), 8 * w, 0) IN IF v.s = 1 THEN Negate(i) ELSE i

-----------------------------------------------------------------------------
LE(t, raw) == IF t.e = "<" THEN raw ELSE Rev(raw)
\* one real number between two numeric kinds; raw little-endian
Real(sk, sw, dk, dw, raw) ==
    LET v == IF sk = "f" THEN DecFloat(Bits(raw), Fmt(sw)) ELSE DecInt(Bits(raw), sk = "i")
    IN  Bytes(IF dk = "f" THEN EncFloat(v, Fmt(dw)) ELSE EncInt(v, dw))

\* is the result determined?  (a float that does not fit an integer type is not)
Determined(s, d, raw) ==
    LET S == DTypes[s]
        D == DTypes[d]
    IN  ~(S.k = "f" /\ D.k \in {"i", "u"}) \/ Fits(DecFloat(Bits(LE(S, raw)), Fmt(S.w)), D)

\* the bytes of an element of type s after conversion to type d
ConvertElement(s, d, raw) ==
    LET S == DTypes[s]
        D == DTypes[d]
    IN  IF S.kw = D.kw THEN
            (IF S.e = D.e \/ S.k \in {"S", "b"} THEN raw
             ELSE IF S.k = "c" THEN Rev(SubSeq(raw, 1, S.w \div 2)) \o Rev(SubSeq(raw, S.w \div 2 + 1, S.w))
             ELSE Rev(raw))
        ELSE IF S.k = "c" THEN
            LET h == S.w \div 2
                One(x) == LE(D, Real("f", h, "f", D.w \div 2, LE(S, x)))
            IN  One(SubSeq(raw, 1, h)) \o One(SubSeq(raw, h + 1, S.w))
        ELSE LE(D, Real(IF S.k = "b" THEN "u" ELSE S.k, S.w, D.k, D.w, LE(S, raw)))
\* NaNs may carry any payload
SameReal(w, got, want) == got = want \/ (DecFloat(Bits(got), Fmt(w)).k = "nan" /\ DecFloat(Bits(want), Fmt(w)).k = "nan")
SameElement(d, got, want) ==
    \/ got = want
    \/ /\ Len(got) = Len(want)
       /\ LET D == DTypes[d]
              h == D.w \div 2
          IN  IF D.k = "f" THEN SameReal(D.w, LE(D, got), LE(D, want))
              ELSE D.k = "c" /\ SameReal(h, LE(D, SubSeq(got, 1, h)), LE(D, SubSeq(want, 1, h)))
                             /\ SameReal(h, LE(D, SubSeq(got, h + 1, D.w)), LE(D, SubSeq(want, h + 1, D.w)))
=============================================================================
