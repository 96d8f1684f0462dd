--------------------------------- MODULE Errors ---------------------------------
(***************************************************************************)
(* How a failure is reported.  Each operation that can fail has a form     *)
(* that returns the code and a form that throws: an exception of the       *)
(* code's category whose message names the defect and shows the text.      *)
(***************************************************************************)
EXTENDS AnyIp, Encoded

CatNone == 0  CatParse == 1  CatLogic == 2
Category(code) == IF code = ErrNone THEN CatNone
                  ELSE IF code \in ErrVersion..ErrNotContained THEN CatLogic ELSE CatParse

(* ---- symbols and texts as messages show them ---- *)
RECURSIVE PadLeft(_, _, _)
PadLeft(t, n, c) == IF Len(t) >= n THEN t ELSE PadLeft(<<c>> \o t, n, c)
SymText(v) == <<123, 85, 43>> \o PadLeft(Map(HexDigit, DigitsW(v, 16)), 4, 48) \o <<125>>
IsSym32(K) == K \in {"U", "w"}
(* the symbol a decoder reports, as a word *)
SymOf(K, d) == IF IsSym32(K) THEN <<d.sym[1] \div 256, d.sym[1] % 256, d.sym[2] \div 256, d.sym[2] % 256>> ELSE NatW(d.sym, 4)
ZeroUnit(K) == IF IsSym32(K) THEN <<0, 0>> ELSE 0
AsciiUnit(K, c) == IF IsSym32(K) THEN <<0, c>> ELSE c

(* units of the first character of s, and what is shown of it: <<>> when it cannot be shown *)
FirstLen(K, s) == IF K = "8" \/ (K = "c" /\ CharUtf8) THEN IF Lead8Len(s[1]) = 0 THEN 1 ELSE Lead8Len(s[1])
                  ELSE IF K = "u" /\ IsHighSur(s[1]) THEN 2 ELSE 1
RECURSIVE ShownFrom(_, _, _)
ShownFrom(K, s, acc) ==
  IF s = <<>> \/ s[1] = ZeroUnit(K) THEN acc
  ELSE LET n == FirstLen(K, s)
           d == Decoded(K, IF n > Len(s) THEN s ELSE SubSeq(s, 1, n))
       IN IF d.code = ErrEncoding THEN acc
          ELSE ShownFrom(K, SubSeq(s, n + 1, Len(s)), acc \o (IF d.code = ErrSymbol THEN SymText(SymOf(K, d)) ELSE d.text))
ShownMax == 100
Shown(K, u) ==
  LET x == IF Len(u) > ShownMax THEN SubSeq(u, 1, ShownMax) \o TLCEval([i \in 1..3 |-> AsciiUnit(K, Dot)]) ELSE u
      d == Decoded(K, x)
  IN IF d.code = ErrNone THEN CutAtNul("c", d.text) ELSE ShownFrom(K, x, <<>>)

(***************************************************************************)
(* Messages.  "V" stands for the number of an octet or part, "Y" for the   *)
(* offending symbol, "S" for the text as shown.                            *)
(***************************************************************************)
Template(code) ==
  CASE code = ErrEmptyAddress -> <<"address cannot be empty">>
    [] code = ErrEmptyNetmask -> <<"empty mask in address ", "S">>
    [] code = ErrInvalidNetmask -> <<"is not a valid netmask in address ", "S">>
    [] code = ErrMaskMixes -> <<"netmask pattern mixes zeroes & ones in address ", "S">>
    [] code = ErrHostBits -> <<"has host bits set in address ", "S">>
    [] code = ErrOneSlash -> <<"only one '/' permitted in address ", "S">>
    [] code = ErrTooLong -> <<"input string is too long ", "S">>
    [] code = ErrEmptyOctet -> <<"empty octet ", "V", " in address ", "S">>
    [] code = ErrExpected4 -> <<"expected 4 octets in ", "S">>
    [] code = ErrLeading0 -> <<"leading zeros are not permitted in octet ", "V", " of address ", "S">>
    [] code = ErrOctetChars -> <<"in octet ", "V", " of address ", "S", " more 3 characters">>
    [] code = ErrOctetSymbol -> <<"in octet ", "V", " of address ", "S", " has invalid symbol">>
    [] code = ErrOctet255 -> <<"octet ", "V", " of address ", "S", " exceeded 255">>
    [] code = ErrLeast3 -> <<"least 3 parts in address ", "S">>
    [] code = ErrMost8Colons -> <<"most 8 colons permitted in address ", "S">>
    [] code = ErrPartChars -> <<"in part ", "V", " of address ", "S", " more 4 characters">>
    [] code = ErrPartSymbol -> <<"in part ", "V", " of address ", "S", " has invalid symbols">>
    [] code = ErrOneDouble -> <<"at most one '::' permitted in address ", "S">>
    [] code = ErrLeadingColon -> <<"at leading ':' only permitted as part of '::' in address ", "S">>
    [] code = ErrTrailingColon -> <<"at trailing ':' only permitted as part of '::' in address ", "S">>
    [] code = ErrAtMost7 -> <<"expected at most 7 other parts with '::' in address ", "S">>
    [] code = ErrExactly8 -> <<"exactly 8 parts expected without '::' in address ", "S">>
    [] code = ErrScopeLong -> <<"scope id is too long in address ", "S">>
    [] code = ErrScopeInvalid -> <<"invalid scope id in address ", "S">>
    [] code = ErrVersion -> <<"versions don't match">>
    [] code = ErrPrefixDiff -> <<"invalid prefixlen_diff">>
    [] code = ErrShorter -> <<"new prefix must be shorter">>
    [] code = ErrLonger -> <<"new prefix must be longer">>
    [] code = ErrBothArgs -> <<"cannot set prefixlen_diff and new_prefix">>
    [] code = ErrNotContained -> <<"network is not a subnet of other">>
    [] code = ErrSymbol -> <<"unexpected next unicode symbol ", "Y", " in string ", "S">>
    [] code = ErrEncoding -> <<"incorrect sequence of bytes in unicode encoding for string ", "S">>

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
CodesOf(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
Templates == TLCEval([code \in 1..32 |-> [i \in 1..Len(Template(code)) |->
               LET p == Template(code)[i] IN IF p \in {"V", "Y", "S"} THEN <<p>> ELSE CodesOf(p)]])
Message(code, v, s) ==
  FoldLeft(LAMBDA acc, p : acc \o (CASE p = <<"S">> -> s [] p = <<"V">> -> DecText(v) [] p = <<"Y">> -> SymText(v) [] OTHER -> p),
           <<>>, Templates[code])

(* what the throwing form does: throws this, or nothing *)
Nothing == [cat |-> CatNone, code |-> ErrNone, what |-> <<>>]
Thrown(code, v, s) == IF code = ErrNone THEN Nothing ELSE [cat |-> Category(code), code |-> code, what |-> Message(code, v, s)]

(***************************************************************************)
(* The number or symbol reported with a parse error.                       *)
(***************************************************************************)
NumV4(K, d, u, whole) ==
  LET s == FoldLeft(V4Step, V4Start, d.text)
  IN IF d.code # ErrNone THEN IF whole \/ s.err = ErrNone THEN SymOf(K, d) ELSE Len(s.octs)
     ELSE ParseV4(d.text).idx
NumV6(K, d) == IF d.code # ErrNone THEN SymOf(K, d) ELSE ParseV6(d.text).idx
(* in the text of a network the number is that of the netmask: 3 after a dotted one *)
NumNet(K, W, d) ==
  LET p == IndexOf(d.text, Slash)
      mask == SubSeq(d.text, p + 1, Len(d.text))
  IN IF d.code # ErrNone THEN SymOf(K, d)
     ELSE IF W = 4 /\ p # 0 /\ \E i \in 1..Len(mask) : ~IsDigit(mask[i]) THEN 3 ELSE 0

(* parses of units u as addresses (v4, v6, any) and networks (n4, n6, nany), and what their throwing forms throw *)
Kinds == {"v4", "v6", "any", "n4", "n6", "nany"}
Reports(K, u, strict, whole) ==
  LET d == Decoded(K, u)
      s == Shown(K, u)
      v4 == EncV4D(d, u, whole)
      v6 == EncV6D(d, whole)
      any == EncAnyD(v4, v6)
      n4 == EncNetD(d, 4, strict, whole)
      n6 == EncNetD(d, 16, strict, whole)
      nany == EncNetAnyD(n4, n6)
      report(r, num) == [r |-> r, thrown |-> Thrown(r.code, num, s)]
  IN [v4 |-> report(v4, NumV4(K, d, u, whole)), v6 |-> report(v6, NumV6(K, d)), any |-> report(any, NumV6(K, d)),
      n4 |-> report(n4, NumNet(K, 4, d)), n6 |-> report(n6, NumNet(K, 16, d)), nany |-> report(nany, NumNet(K, 16, d))]
=============================================================================
