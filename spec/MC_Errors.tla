------------------------------- MODULE MC_Errors -------------------------------
(* Calls of both forms with one error code variable that is used again and again. *)
EXTENDS Errors
CONSTANTS Alphabet, MaxLen, Unit
VARIABLES text, code, val, exc, last
vars == <<text, code, val, exc, last>>
Few == {49, 46, 58, 47, 37, 195, 169}          \* 1 . : / % and the two bytes of one symbol
NoVal == [code |-> ErrNone]
Init == text = <<>> /\ code \in {ErrNone, ErrNotContained} /\ val = NoVal /\ exc = Nothing /\ last = "-"
Type == Len(text) < MaxLen /\ (\E c \in Alphabet : text' = Append(text, c)) /\ val' = NoVal /\ exc' = Nothing /\ last' = "-" /\ UNCHANGED code
R(k) == Reports(Unit, text, TRUE, FALSE)[k]
Verdict(k) == R(k).r
Coded(k) == LET r == Verdict(k) IN code' = r.code /\ val' = r /\ exc' = Nothing /\ last' = k /\ UNCHANGED text
Throwing(k) ==
  LET t == R(k).thrown
  IN exc' = t /\ val' = (IF t = Nothing THEN Verdict(k) ELSE NoVal) /\ last' = k /\ UNCHANGED <<text, code>>
Next == Type \/ \E k \in Kinds : last = "-" /\ (Coded(k) \/ Throwing(k))

Shows(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
(* every code has one category and one message, which no other code can have for the same text *)
Arg(c) == IF c = ErrSymbol THEN <<0, 0, 0, 7>> ELSE 7
Unambiguous ==
  /\ \A c \in 1..32 : Category(c) \in {CatParse, CatLogic} /\ Message(c, Arg(c), <<>>) # <<>>
  /\ \A c, d \in 1..32 : c # d => Message(c, Arg(c), <<88>>) # Message(d, Arg(d), <<88>>)
ASSUME Unambiguous
(* an exception shows the code, its category and the text; the forms agree *)
Agrees == last # "-" =>
  LET r == Verdict(last)
  IN /\ exc # Nothing => /\ exc.code = r.code /\ exc.code # ErrNone /\ exc.cat = CatParse
                         /\ exc.code # ErrEmptyAddress => Shows(exc.what, Shown(Unit, text))
     /\ exc = Nothing => val = r
(* a text that fails leaves the default value *)
Default == last # "-" /\ val.code # ErrNone =>
  IF last \in {"v4", "any"} THEN val.b = Zero(4) ELSE IF last = "v6" THEN val.b = Zero(16)
  ELSE val.net = DefNet(IF last = "n6" THEN 16 ELSE 4)
(* a number that is reported is the index of an octet or part of the text *)
HasNumber(c) == \E i \in 1..Len(Template(c)) : Template(c)[i] = "V"
Numbered == last \in {"v4", "v6"} /\ exc # Nothing =>
  (HasNumber(exc.code) => LET d == Decoded(Unit, text) IN (IF last = "v4" THEN NumV4(Unit, d, text, FALSE) ELSE NumV6(Unit, d)) \in 0..9)
(* the code-returning form overwrites whatever the code was; the throwing form does not touch it *)
Overwritten == [][last' \in Kinds /\ last = "-" =>
                     (code' = Verdict(last').code /\ exc' = Nothing) \/ code' = code]_vars
=============================================================================
