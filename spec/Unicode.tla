-------------------------------- MODULE Unicode --------------------------------
(***************************************************************************)
(* Decoding of code units to ASCII.  Every decoder consumes code units one *)
(* character at a time; only characters 0..127 are accepted.  The verdict  *)
(* is [code, text, sym]: text is what was decoded up to the end or to the  *)
(* first error; sym is the code point reported with ErrSymbol.             *)
(* Units of UTF-32 and wchar_t are pairs <<hi16, lo16>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Codes, TLC

UniOk(text) == [code |-> ErrNone, text |-> text, sym |-> 0]
UniNo(code, acc, sym) == [code |-> code, text |-> acc, sym |-> sym]

IsTrail8(u) == u >= 128 /\ u < 192
Lead8Len(u) == IF u < 128 THEN 1 ELSE IF u < 192 THEN 0 ELSE IF u < 224 THEN 2
               ELSE IF u < 240 THEN 3 ELSE IF u < 248 THEN 4 ELSE 0
Lead8Bits(u) == IF u < 128 THEN u ELSE IF u < 224 THEN u - 192 ELSE IF u < 240 THEN u - 224 ELSE u - 240

RECURSIVE Decode8From(_, _, _)
Decode8From(s, i, acc) ==
  IF i > Len(s) THEN UniOk(acc)
  ELSE LET n == Lead8Len(s[i])
           v == FoldLeft(LAMBDA x, u : x * 64 + (u - 128), Lead8Bits(s[i]), SubSeq(s, i + 1, i + n - 1))
       IN IF n = 0 \/ i + n - 1 > Len(s) THEN UniNo(ErrEncoding, acc, 0)
          ELSE IF \E j \in (i + 1)..(i + n - 1) : ~IsTrail8(s[j]) THEN UniNo(ErrEncoding, acc, 0)
          ELSE IF n > 1 /\ v <= 127 THEN UniNo(ErrEncoding, acc, 0)      \* over-long
          ELSE IF v > 127 THEN UniNo(ErrSymbol, acc, v)
          ELSE Decode8From(s, i + n, Append(acc, v))
Decode8(s) == Decode8From(s, 1, <<>>)

IsHighSur(u) == u >= 55296 /\ u < 56320      \* D800..DBFF
IsLowSur(u) == u >= 56320 /\ u < 57344       \* DC00..DFFF
RECURSIVE Decode16From(_, _, _)
Decode16From(s, i, acc) ==
  IF i > Len(s) THEN UniOk(acc)
  ELSE IF IsHighSur(s[i]) THEN
     IF i = Len(s) \/ ~IsLowSur(s[i + 1]) THEN UniNo(ErrEncoding, acc, 0)
     ELSE UniNo(ErrSymbol, acc, (s[i] - 55296) * 1024 + (s[i + 1] - 56320) + 65536)
  ELSE IF s[i] > 127 THEN UniNo(ErrSymbol, acc, s[i])     \* a lone low surrogate is an unexpected symbol
  ELSE Decode16From(s, i + 1, Append(acc, s[i]))
Decode16(s) == Decode16From(s, 1, <<>>)

(* units are <<hi, lo>>; sym is the pair as well *)
RECURSIVE Decode32From(_, _, _)
Decode32From(s, i, acc) ==
  IF i > Len(s) THEN [code |-> ErrNone, text |-> acc, sym |-> <<0, 0>>]
  ELSE IF s[i][1] > 0 \/ s[i][2] > 127 THEN UniNo(ErrSymbol, acc, s[i])
  ELSE Decode32From(s, i + 1, Append(acc, s[i][2]))
Decode32(s) == Decode32From(s, 1, <<>>)
=============================================================================
