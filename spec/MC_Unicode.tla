------------------------------- MODULE MC_Unicode -------------------------------
(* The decoders against an encoder, on every text over an alphabet of units.     *)
EXTENDS Encoded
CONSTANTS Kind, Alphabet, MaxLen
VARIABLE s
Bytes8 == {0, 49, 58, 127, 128, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 247, 248, 255}
Few8 == {49, 128, 129, 191, 192, 194, 224, 225, 240, 241, 248}
Units16 == {0, 49, 58, 127, 128, 256, 305, 12337, 55295, 55296, 56319, 56320, 56369, 57343, 57344, 65281, 65535}
Units32 == {<<0, 0>>, <<0, 49>>, <<0, 58>>, <<0, 127>>, <<0, 128>>, <<0, 305>>, <<1, 49>>, <<256, 49>>, <<32768, 49>>, <<65535, 65535>>, <<0, 55296>>}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E u \in Alphabet : s' = Append(s, u)

D(x) == Decoded(Kind, x)
Ascii(u) == IF Kind = "U" THEN u[1] = 0 /\ u[2] < 128 ELSE u < 128
AcceptsAscii == (D(s).code = ErrNone) <=> (\A i \in 1..Len(s) : Ascii(s[i]))
(* the decoded part is what stands before the first unit that is not ASCII *)
FirstBad == CHOOSE i \in 1..(Len(s) + 1) : (i = Len(s) + 1 \/ ~Ascii(s[i])) /\ \A j \in 1..(i - 1) : Ascii(s[j])
PrefixDecoded == D(s).text = [i \in 1..(FirstBad - 1) |-> IF Kind = "U" THEN s[i][2] ELSE s[i]]
(* an encoder: code point v written with n units *)
Encode8(v, n) ==
  CASE n = 2 -> <<192 + (v \div 64), 128 + (v % 64)>>
    [] n = 3 -> <<224 + (v \div 4096), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
    [] OTHER -> <<240 + (v \div 262144), 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
Top8 == [n \in 2..4 |-> CASE n = 2 -> 2047 [] n = 3 -> 65535 [] OTHER -> 2097151]
Encode16(v) == <<55296 + ((v - 65536) \div 1024), 56320 + ((v - 65536) % 1024)>>
Rest == SubSeq(s, FirstBad, Len(s))
StartsWith(x, y) == Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
(* what is reported as a symbol is in the text; what cannot be decoded is not the writing of any symbol *)
Low(x) == x - (x \div 64) * 64
Value8(x, n) == FoldLeft(LAMBDA a, i : a * 64 + Low(x[i]), x[1] % (2 ^ (7 - n)), [i \in 1..(n - 1) |-> i + 1])
Symbols == Kind = "8" /\ FirstBad <= Len(s) =>
  LET d == D(s) IN
    IF d.code = ErrSymbol THEN d.sym > 127 /\ \E n \in 2..4 : d.sym <= Top8[n] /\ StartsWith(Rest, Encode8(d.sym, n))
    ELSE d.code = ErrEncoding /\ \A n \in 2..4 : Len(Rest) >= n =>
           LET v == Value8(Rest, n) IN v > 127 => ~StartsWith(Rest, Encode8(v, n))
Symbols16 == Kind = "u" /\ FirstBad <= Len(s) =>
  LET d == D(s) IN
    IF Rest[1] \in 55296..56319
    THEN IF Len(Rest) > 1 /\ Rest[2] \in 56320..57343 THEN d.code = ErrSymbol /\ d.sym >= 65536 /\ StartsWith(Rest, Encode16(d.sym))
         ELSE d.code = ErrEncoding
    ELSE d.code = ErrSymbol /\ d.sym = Rest[1]
Symbols32 == Kind = "U" /\ FirstBad <= Len(s) => D(s).code = ErrSymbol /\ D(s).sym = Rest[1]
(* of a text with a character that is not ASCII nothing is accepted *)
NothingAccepted == ~AcceptsAscii \/ (FirstBad <= Len(s) =>
  LET r == EncParses(Kind, s, FALSE) w == EncParses(Kind, s, TRUE) IN
    /\ \A k \in DOMAIN r : r[k].code # ErrNone /\ w[k].code # ErrNone
    /\ EncScope(Kind, s, <<1>>).code # ErrNone)
(* a verdict stands however the text goes on, unless the text ended inside a character *)
Cut == D(s).code = ErrEncoding /\ (Kind = "8" => Len(Rest) < Lead8Len(Rest[1]) /\ \A i \in 2..Len(Rest) : IsTrail8(Rest[i]))
                               /\ (Kind = "u" => Len(Rest) = 1)
Stable == [][D(s).code # ErrNone /\ ~Cut => D(s') = D(s)]_s
=============================================================================
