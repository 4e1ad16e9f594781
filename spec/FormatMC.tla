------------------------------ MODULE FormatMC ------------------------------
(* Description files of small columns and every way of damaging them once or    *)
(* twice: cutting, dropping, repeating or exchanging lines, replacing a word.   *)
(* Checked: an undamaged text states what was saved; a text cut short states    *)
(* that or nothing (for the description), a part of it (for the attributes).     *)
EXTENDS Format, Json, IOUtils
CONSTANTS MaxDamage, AtRandom
\* all ways, or one of them (for simulation)
Some(S) == IF AtRandom /\ S # {} THEN {RandomElement(S)} ELSE S
VARIABLES kind, want, lines, tail, damage      \* tail: lines are followed by a newline, except when cut
vars == <<kind, want, lines, tail, damage>>

Headers == { [dtype |-> "<i4", nmemb |-> 1, files |-> <<>>],
             [dtype |-> ">f8", nmemb |-> 3, files |-> <<<<2, 300>>>>],
             [dtype |-> "<S3", nmemb |-> 1, files |-> <<<<0, 0>>, <<10, 70000>>, <<1, 9>>>>] }
AttrSets == { <<[name |-> "A", dtype |-> "<i4", n |-> 1, raw |-> <<7, 0, 0, 0>>]>>,
              <<[name |-> "A", dtype |-> "<S3", n |-> 1, raw |-> <<65, 66, 0>>], [name |-> "bc", dtype |-> ">f8", n |-> 0, raw |-> <<>>]>>,
              <<[name |-> "x", dtype |-> "|u1", n |-> 2, raw |-> <<0, 255>>], [name |-> "y", dtype |-> "<c8", n |-> 1, raw |-> <<0,0,0,0,0,0,128,63>>]>> }
Odd == { "", "-1", "0", "00", "1", "2", "7", "+1", "1.5", "1e3", "x", "99999999999999999999", "2147483647", "2147483648", "4294967295",
         "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551617",
         "<i4", "i4", "=i4", "<i", "<i0", "<i17", "<i99999999999", "<x4", "<4i", "<i4x", "<S16", "<S100", "<", "####", "DTYPE:", "NFILE:", ":", "000001:", "FFFFFF:",
         "0000001:", "000000:", "00", "0", "0G", "A", "%s", "%n%n%n%n" }

Init == /\ damage = 0 /\ tail = <<>>
        /\ \/ kind = "header" /\ want \in Headers /\ lines = HeaderLines(want)
           \/ kind = "attr" /\ want \in AttrSets /\ lines = [ i \in 1..Len(want) |-> AttrLine(want[i]) ]

CutAt == \E i \in Some(1..Len(lines)) : \E k \in Some(0..Len(lines[i])) :
            lines' = SubSeq(lines, 1, i - 1) /\ tail' = SubSeq(lines[i], 1, k)
DropLine == \E i \in Some(1..Len(lines)) : lines' = SubSeq(lines, 1, i - 1) \o SubSeq(lines, i + 1, Len(lines)) /\ tail' = tail
TwiceLine == \E i \in Some(1..Len(lines)) : lines' = SubSeq(lines, 1, i) \o SubSeq(lines, i, Len(lines)) /\ tail' = tail
SwapLines == \E i, j \in Some(1..Len(lines)) : i < j /\ tail' = tail
                /\ lines' = [ k \in 1..Len(lines) |-> IF k = i THEN lines[j] ELSE IF k = j THEN lines[i] ELSE lines[k] ]
WordAt == \E i \in Some(1..Len(lines)), w \in Some(Odd) : \E k \in Some(1..Len(Words(lines[i], 1))) :
            LET ws == Words(lines[i], 1) IN
            lines' = [lines EXCEPT ![i] = Flat([ m \in 1..Len(ws) |-> (IF m > 1 THEN <<" ">> ELSE <<>>) \o (IF m = k THEN Chars(w) ELSE ws[m]) ])]
            /\ tail' = tail
Next == damage < MaxDamage /\ damage' = damage + 1 /\ UNCHANGED <<kind, want>>
        /\ (CutAt \/ DropLine \/ TwiceLine \/ SwapLines \/ WordAt)
Spec == Init /\ [][Next]_vars

Now == Text(lines) \o tail
HeaderOf(d) == [ok |-> TRUE, dtype |-> Chars(d.dtype), nmemb |-> ToString(d.nmemb),
                files |-> [ i \in 1..Len(d.files) |-> <<ToString(d.files[i][1]), ToString(d.files[i][2])>> ]]
AttrsOf(w) == { [ok |-> TRUE, name |-> w[i].name, dtype |-> Chars(w[i].dtype), n |-> w[i].n, raw |-> w[i].raw] : i \in 1..Len(w) }
Undamaged == damage = 0 => IF kind = "header" THEN ParseHeader(Now) = HeaderOf(want)
                           ELSE ParseAttrs(Now) = [ok |-> TRUE, attrs |-> AttrsOf(want)]
IsCut == damage = 1 /\ IsPrefix(Now, IF kind = "header" THEN Text(HeaderLines(want)) ELSE Text([ i \in 1..Len(want) |-> AttrLine(want[i]) ]))
CutShort == IsCut => IF kind = "header" THEN LET p == ParseHeader(Now) IN
                             p.ok => (p = HeaderOf(want) \/ Len(p.files) = 0 \/ Len(want.files) > 9)
                     ELSE LET p == ParseAttrs(Now) IN p.ok => p.attrs \subseteq AttrsOf(want)
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("TEXT " \o ToJson([kind |-> kind, damage |-> damage, text |-> Join(Now)])) ELSE TRUE
=============================================================================
