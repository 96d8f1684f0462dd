-------------------------------- MODULE Chars --------------------------------
(* ASCII codes and character classes; texts are sequences of codes. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
NUL == 0  Tab == 9  LineFeed == 10  CarRet == 13  Space == 32  Percent == 37  Plus == 43  Minus == 45  Dot == 46  Slash == 47
C0 == 48  C9 == 57  Colon == 58  UA == 65  UF == 70  UZ == 90  LA == 97  LF == 102  LX == 120 LZ == 122
IsDigit(c) == c >= 48 /\ c <= 57
IsUpperHex(c) == c >= 65 /\ c <= 70
IsLowerHex(c) == c >= 97 /\ c <= 102
IsHex(c) == IsDigit(c) \/ IsUpperHex(c) \/ IsLowerHex(c)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpperHex(c) THEN c - 55 ELSE c - 87
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
ToUpper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
ToLower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
(* decimal digits of a natural *)
RECURSIVE DecText(_)
DecText(v) == IF v < 10 THEN <<48 + v>> ELSE Append(DecText(v \div 10), 48 + (v % 10))
(* index of the first occurrence of c in s, or 0 *)
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Map(f(_), s) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
=============================================================================
