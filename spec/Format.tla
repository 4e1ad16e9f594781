------------------------------ MODULE Format ------------------------------
(* The files that describe a column, as text: what a text states, and which     *)
(* text a description is saved as.  A text is a sequence of one-character        *)
(* strings.  Numbers are decimal digit strings without leading zeros, so that    *)
(* they can be of any size.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Chars(s) == [ i \in 1..Len(s) |-> SubSeq(s, i, i) ]
Join(t) == FoldLeft(LAMBDA acc, c : acc \o c, "", t)

Blank == {" ", "\t"}
White == {" ", "\t", "\n", "\r", "\f"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit == { DigitSeq[i] : i \in 1..10 }
HexSeq == DigitSeq \o <<"A", "B", "C", "D", "E", "F">>
Hex == Digit \cup {"A", "B", "C", "D", "E", "F", "a", "b", "c", "d", "e", "f"}
HexVal(c) == CASE c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15
               [] OTHER -> (CHOOSE i \in 1..16 : HexSeq[i] = c) - 1
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* first position >= i whose character is not in P (Len+1 if none)
Past(t, i, P) == LET S == { j \in i..Len(t) : t[j] \notin P } IN IF S = {} THEN Len(t) + 1 ELSE Least(S)
\* first position >= i whose character is in P
UpTo(t, i, P) == LET S == { j \in i..Len(t) : t[j] \in P } IN IF S = {} THEN Len(t) + 1 ELSE Least(S)
Cut(t, i, j) == SubSeq(t, i, j - 1)

Fail == [ok |-> FALSE]
StripZeros(ds) == LET i == Past(ds, 1, {"0"}) IN IF i > Len(ds) THEN <<"0">> ELSE SubSeq(ds, i, Len(ds))

\* a decimal number at i: white space, sign, digits
Num(t, i) ==
    LET a == Past(t, i, White)
        neg == a <= Len(t) /\ t[a] = "-"
        b == IF a <= Len(t) /\ t[a] \in {"+", "-"} THEN a + 1 ELSE a
        e == Past(t, b, Digit)
        v == StripZeros(Cut(t, b, e))
    IN  IF e = b THEN Fail
        ELSE [ok |-> TRUE, neg |-> neg /\ v # <<"0">>, v |-> Join(v), len |-> Len(v), next |-> e]
\* a small number as an integer; anything longer than six digits is "large"
RECURSIVE Value(_)
Value(ds) == IF ds = <<>> THEN 0 ELSE Value(SubSeq(ds, 1, Len(ds) - 1)) * 10 + HexVal(ds[Len(ds)])
HexNum(t, i) ==
    LET a0 == Past(t, i, White)
        a == IF a0 <= Len(t) /\ t[a0] = "+" THEN a0 + 1 ELSE a0
        b == IF a + 1 <= Len(t) /\ t[a] = "0" /\ t[a + 1] \in {"x", "X"} THEN a + 2 ELSE a
        e == Past(t, b, Hex)
        v == StripZeros(Cut(t, b, e))
    IN  IF e = b \/ Len(v) > 6 THEN Fail
        ELSE [ok |-> TRUE, next |-> e, v |-> FoldLeft(LAMBDA acc, c : acc * 16 + HexVal(c), 0, v)]
Key(t, i, word) ==
    LET a == Past(t, i, White) IN
    IF a + Len(word) - 1 <= Len(t) /\ SubSeq(t, a, a + Len(word) - 1) = word
    THEN [ok |-> TRUE, next |-> a + Len(word)] ELSE Fail
Colon == <<":">>

-----------------------------------------------------------------------------
(* Element types as they are written *)
TypeOrder == {"<", ">", "=", "|"}
TypeForm(d) ==      \* order, kind, width
    LET p == IF d # <<>> /\ d[1] \in TypeOrder THEN 1 ELSE 0
        ds == SubSeq(d, p + 2, Len(d))
    IN  IF /\ Len(d) >= p + 2 /\ d[p + 1] \in Letters
           /\ Len(ds) <= 6 /\ \A i \in 1..Len(ds) : ds[i] \in Digit
        THEN [ok |-> TRUE, ordered |-> p = 1, order |-> IF p = 1 THEN d[1] ELSE "=", kind |-> d[p + 1], width |-> Value(ds)]
        ELSE Fail
ColumnType(d) == LET f == TypeForm(d) IN f.ok /\ f.ordered /\ f.kind \in {"S", "b", "i", "f", "u", "c"} /\ f.width \in 1..16
\* the ways of writing the same type
SameType(d) == LET f == TypeForm(d)
                   rest == SubSeq(d, (IF f.ordered THEN 2 ELSE 1), Len(d))
               IN  IF f.order \in {"<", ">"} THEN {Join(d)}
                   ELSE { o \o Join(rest) : o \in {"<", "=", "|", ""} }

-----------------------------------------------------------------------------
(* The description of a column *)
RECURSIVE Entries(_, _, _, _)
Entries(t, i, n, acc) ==        \* n more file entries; acc: id -> <<size, sum>>
    IF n = 0 THEN [ok |-> TRUE, map |-> acc] ELSE
    LET id == HexNum(t, i) IN IF ~id.ok THEN Fail ELSE
    LET c1 == Key(t, id.next, Colon) IN IF ~c1.ok THEN Fail ELSE
    LET sz == Num(t, c1.next) IN IF ~sz.ok \/ sz.neg THEN Fail ELSE
    LET c2 == Key(t, sz.next, Colon) IN IF ~c2.ok THEN Fail ELSE
    LET sm == Num(t, c2.next) IN IF ~sm.ok \/ sm.neg THEN Fail ELSE
    LET c3 == Key(t, sm.next, Colon) IN IF ~c3.ok THEN Fail ELSE
    LET sv == Num(t, c3.next) IN IF ~sv.ok \/ id.v \in DOMAIN acc THEN Fail ELSE
    Entries(t, sv.next, n - 1, [ k \in DOMAIN acc \cup {id.v} |-> IF k = id.v THEN <<sz.v, sm.v>> ELSE acc[k] ])

\* what the text states: [ok, dtype (characters), nmemb, files]
ParseHeader(t) ==
    LET k1 == Key(t, 1, Chars("DTYPE:")) IN IF ~k1.ok THEN Fail ELSE
    LET a == Past(t, k1.next, White)
        b == UpTo(t, a, White)
        k2 == Key(t, b, Chars("NMEMB:")) IN IF a = b \/ ~k2.ok THEN Fail ELSE
    LET nm == Num(t, k2.next) IN IF ~nm.ok \/ nm.neg THEN Fail ELSE
    LET k3 == Key(t, nm.next, Chars("NFILE:")) IN IF ~k3.ok THEN Fail ELSE
    LET nf == Num(t, k3.next) IN IF ~nf.ok \/ nf.neg \/ nf.len > 6 THEN Fail ELSE
    LET N == Value(Chars(nf.v)) IN IF N > Len(t) THEN Fail ELSE
    LET es == Entries(t, nf.next, N, <<>>) IN
    IF ~es.ok \/ DOMAIN es.map # 0..(N - 1) \/ ~ColumnType(Cut(t, a, b)) THEN Fail
    ELSE [ok |-> TRUE, dtype |-> Cut(t, a, b), nmemb |-> nm.v, files |-> [ i \in 1..N |-> es.map[i - 1] ]]

-----------------------------------------------------------------------------
(* The attributes of a column, one per line *)
RECURSIVE Words(_, _)
Words(t, i) ==      \* the words of a line from position i
    LET a == Past(t, i, Blank) IN
    IF a > Len(t) THEN <<>>
    ELSE LET b == UpTo(t, a, Blank) IN <<Cut(t, a, b)>> \o Words(t, b)
RECURSIVE Lines(_, _)
Lines(t, i) == IF i > Len(t) THEN <<>>
               ELSE LET b == UpTo(t, i, {"\n"}) IN <<Cut(t, i, b)>> \o Lines(t, b + 1)
Bytes(h) == [ k \in 1..(Len(h) \div 2) |-> HexVal(h[2 * k - 1]) * 16 + HexVal(h[2 * k]) ]

\* one line: [ok, name, dtype, n, raw]
ParseAttr(line) ==
    LET w == Words(line, 1) IN
    IF Len(w) < 3 THEN Fail ELSE
    LET f == TypeForm(w[2])
        n == Num(w[3], 1)
    IN  IF ~f.ok \/ ~n.ok \/ n.neg \/ n.next # Len(w[3]) + 1 \/ n.len > 6 THEN Fail ELSE
    LET k == Value(Chars(n.v)) * f.width IN
    IF k = 0 THEN [ok |-> TRUE, name |-> Join(w[1]), dtype |-> w[2], n |-> Value(Chars(n.v)), raw |-> <<>>]
    ELSE IF Len(w) < 4 \/ Len(w[4]) # 2 * k \/ \E i \in 1..Len(w[4]) : w[4][i] \notin Hex THEN Fail
    ELSE [ok |-> TRUE, name |-> Join(w[1]), dtype |-> w[2], n |-> Value(Chars(n.v)), raw |-> Bytes(w[4])]

ParseAttrs(t) ==
    LET ls == SelectSeq(Lines(t, 1), LAMBDA x : Past(x, 1, Blank) <= Len(x))
        as == [ i \in 1..Len(ls) |-> ParseAttr(ls[i]) ]
    IN  IF \E i \in 1..Len(as) : ~as[i].ok THEN Fail
        ELSE [ok |-> TRUE, attrs |-> { as[i] : i \in 1..Len(as) }]

\* the old format: records of n (4 bytes), length of the name (4 bytes), type (8 bytes), name, data;
\* b is a sequence of bytes (numbers)
I4(b, i) == IF b[i + 3] # 0 THEN -1 ELSE b[i] + 256 * b[i + 1] + 65536 * b[i + 2]
UpToZero(b) == LET S == { i \in 1..Len(b) : b[i] = 0 } IN IF S = {} THEN b ELSE SubSeq(b, 1, Least(S) - 1)
\* width of a type given as bytes, -1 if it is none
WidthB(d) ==
    LET p == IF d # <<>> /\ d[1] \in {60, 61, 62, 124} THEN 1 ELSE 0
        ds == SubSeq(d, p + 2, Len(d))
    IN  IF p = 0 \/ ds = <<>> \/ \E i \in 1..Len(ds) : ds[i] \notin 48..57 THEN -1
        ELSE FoldLeft(LAMBDA acc, x : acc * 10 + x - 48, 0, ds)
RECURSIVE ParseV1From(_, _, _)
ParseV1From(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, attrs |-> acc]
    ELSE IF i + 15 > Len(b) THEN Fail
    ELSE LET n == I4(b, i)
             l == I4(b, i + 4)
             d == UpToZero(SubSeq(b, i + 8, i + 15))
             w == WidthB(d)
         IN  IF n < 0 \/ l < 0 \/ w < 0 THEN Fail
             ELSE IF l > Len(b) \/ n > Len(b) \/ i + 16 + l + n * w - 1 > Len(b) THEN Fail
             ELSE ParseV1From(b, i + 16 + l + n * w,
                    acc \cup {[name |-> UpToZero(SubSeq(b, i + 16, i + 15 + l)), dtype |-> d, n |-> n,
                               raw |-> SubSeq(b, i + 16 + l, i + 15 + l + n * w)]})
ParseV1(b) == ParseV1From(b, 1, {})

-----------------------------------------------------------------------------
(* What is written: the text of a description *)
Mod(x, m) == x - m * (x \div m)
Dec(x) == Chars(ToString(x))
Hex6(x) == [ k \in 1..6 |-> HexSeq[Mod(x \div (16 ^ (6 - k)), 16) + 1] ]
HexByte(x) == <<HexSeq[x \div 16 + 1], HexSeq[Mod(x, 16) + 1]>>
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
NL == <<"\n">>
\* d: [dtype, nmemb, files: seq of <<size, sum>>] with small numbers
HeaderLines(d) ==
    << Chars("DTYPE: ") \o Chars(d.dtype), Chars("NMEMB: ") \o Dec(d.nmemb), Chars("NFILE: ") \o Dec(Len(d.files)) >>
    \o [ i \in 1..Len(d.files) |-> Hex6(i - 1) \o Chars(": ") \o Dec(d.files[i][1]) \o Chars(" : ") \o Dec(d.files[i][2])
                                   \o Chars(" : ") \o Dec(Mod(Mod(d.files[i][2], 65536) + d.files[i][2] \div 65536, 65536)) ]
Text(ls) == Flat([ i \in 1..Len(ls) |-> ls[i] \o NL ])
AttrLine(a) == Chars(a.name) \o <<" ">> \o Chars(a.dtype) \o <<" ">> \o Dec(a.n) \o <<" ">>
               \o Flat([ k \in 1..Len(a.raw) |-> HexByte(a.raw[k]) ]) \o Chars(" #HUMANE [ x ]")
=============================================================================
