-------------------------------- MODULE Encoded --------------------------------
(***************************************************************************)
(* Parsing text given as code units of an encoding.  K is "8" (UTF-8), "c" *)
(* (plain char: bytes, or UTF-8 when the library is told so), "u" (UTF-16),*)
(* "U" and "w" (UTF-32; wchar_t on this platform).                         *)
(***************************************************************************)
EXTENDS NetText, Unicode
CONSTANT CharUtf8

Decoded(K, u) ==
  CASE K = "8" \/ (K = "c" /\ CharUtf8) -> Decode8(u)
    [] K = "c" -> UniOk(u)
    [] K = "u" -> Decode16(u)
    [] OTHER -> Decode32(u)

IsNul(x) == x = 0
(* an array holds the units up to the first NUL *)
CutAtNul(K, u) ==
  LET nul(i) == IF K \in {"U", "w"} THEN u[i] = <<0, 0>> ELSE u[i] = 0
      at == {i \in 1..Len(u) : nul(i)}
  IN IF at = {} THEN u ELSE SubSeq(u, 1, (CHOOSE i \in at : \A j \in at : i <= j) - 1)

(* Dotted-decimal text and scope ids are checked while they are decoded: of a    *)
(* mistake of theirs and a character that cannot be decoded, the earlier one is  *)
(* reported.  Other texts (up to a second slash), and every array, are decoded as a whole first.        *)
(* d is the decoded text *)
EncV4D(d, u, whole) ==
  LET s == FoldLeft(V4Step, V4Start, d.text)
      no(code) == [code |-> code, b |-> Zero(4), s |-> <<>>]
      p == ParseV4(d.text)
  IN IF u = <<>> THEN no(ErrEmptyAddress)
     ELSE IF d.code # ErrNone THEN no(IF whole \/ s.err = ErrNone THEN d.code ELSE s.err)
     ELSE [code |-> p.code, b |-> p.bytes, s |-> <<>>]
EncV4(K, u, whole) == EncV4D(Decoded(K, u), u, whole)
EncV6D(d, whole) ==
  LET p == ParseV6(d.text)
      pc == IndexOf(d.text, Percent)
      sv == IF pc = 0 THEN ErrNone ELSE ScopeVerdictFrom(SubSeq(d.text, pc + 1, Len(d.text)), 1)
  IN IF d.code # ErrNone THEN [code |-> IF whole \/ sv = ErrNone THEN d.code ELSE sv, b |-> Zero(16), s |-> <<>>]
     ELSE [code |-> p.code, b |-> p.bytes, s |-> p.scope]
EncV6(K, u, whole) == EncV6D(Decoded(K, u), whole)
EncAnyD(a, b) ==
   IF a.code = ErrNone THEN a
     ELSE IF b.code = ErrNone THEN b
     ELSE [code |-> b.code, b |-> Zero(4), s |-> <<>>]

EncAny(K, u, whole) == EncAnyD(EncV4(K, u, whole), EncV6(K, u, whole))

EncNetD(d, W, strict, whole) ==
  IF d.code # ErrNone
     THEN [code |-> IF ~whole /\ SlashCount(d.text) > 1 THEN ErrOneSlash ELSE d.code, net |-> DefNet(W)]
     ELSE ParseNet(W, d.text, strict)
EncNet(K, W, u, strict, whole) == EncNetD(Decoded(K, u), W, strict, whole)
EncNetAnyD(a, b) ==
  IF a.code = ErrNone THEN a
     ELSE IF b.code = ErrNone THEN b
     ELSE [code |-> b.code, net |-> DefNet(4)]
EncNetAny(K, u, strict, whole) == EncNetAnyD(EncNet(K, 4, u, strict, whole), EncNet(K, 16, u, strict, whole))

(* a scope id is limited in units, then decoded one character at a time *)
EncScope(K, u, old) ==
  LET d == Decoded(K, u)
      bad == \E i \in 1..Len(d.text) : SetScopeVerdict(<<d.text[i]>>) # ErrNone
      code == IF Len(u) > ScopeMax THEN ErrScopeLong
              ELSE IF bad THEN ErrScopeInvalid ELSE d.code
  IN [code |-> code, s |-> IF code = ErrNone THEN d.text ELSE old]

EncParses(K, u, whole) ==
  LET d == Decoded(K, u)
      v4 == EncV4D(d, u, whole)
      v6 == EncV6D(d, whole)
      n4 == EncNetD(d, 4, FALSE, whole)
      n6 == EncNetD(d, 16, FALSE, whole)
  IN [v4 |-> v4, v6 |-> v6, any |-> EncAnyD(v4, v6), n4 |-> n4, n6 |-> EncNetD(d, 16, TRUE, whole), nany |-> EncNetAnyD(n4, n6)]
=============================================================================
