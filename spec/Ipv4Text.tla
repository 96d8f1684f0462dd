------------------------------- MODULE Ipv4Text -------------------------------
(***************************************************************************)
(* Dotted-decimal IPv4 text as a character automaton.  The automaton is a  *)
(* state machine (see MC_Ipv4Text) and, folded over a text, the parser     *)
(* that recorded executions are checked against.                           *)
(***************************************************************************)
EXTENDS Words, Chars, Codes

(* octs: octets completed; n: digits of the current octet; v: its value;   *)
(* z: it starts with 0; err: verdict so far (0 = none).                    *)
V4Start == [octs |-> <<>>, n |-> 0, v |-> 0, z |-> FALSE, err |-> ErrNone]

V4Fail(s, code) == [s EXCEPT !.err = code]

V4Step(s, c) ==
  IF s.err # ErrNone THEN s
  ELSE IF Len(s.octs) = 4 THEN V4Fail(s, ErrExpected4)
  ELSE IF IsDigit(c) THEN
       IF s.n > 0 /\ s.z THEN V4Fail(s, ErrLeading0)
       ELSE IF s.n = 3 THEN V4Fail(s, ErrOctetChars)
       ELSE [s EXCEPT !.n = s.n + 1, !.v = s.v * 10 + (c - 48),
                      !.z = IF s.n = 0 THEN c = 48 ELSE s.z]
  ELSE IF c = Dot THEN
       IF s.n = 0 THEN V4Fail(s, ErrEmptyOctet)
       ELSE IF s.v > 255 THEN V4Fail(s, ErrOctet255)
       ELSE [s EXCEPT !.octs = Append(s.octs, s.v), !.n = 0, !.v = 0, !.z = FALSE]
  ELSE V4Fail(s, ErrOctetSymbol)

(* verdict at the end of the text: [code, bytes, idx]; idx is the octet reported *)
V4End(s) ==
  LET fail(code) == [code |-> code, bytes |-> Zero(4), idx |-> Len(s.octs)]
  IN IF s.err # ErrNone THEN fail(s.err)
     ELSE IF Len(s.octs) # 3 THEN fail(ErrExpected4)
     ELSE IF s.n = 0 THEN fail(ErrEmptyOctet)
     ELSE IF s.v > 255 THEN fail(ErrOctet255)
     ELSE [code |-> ErrNone, bytes |-> Append(s.octs, s.v), idx |-> 3]

ParseV4(t) ==
  IF t = <<>> THEN [code |-> ErrEmptyAddress, bytes |-> Zero(4), idx |-> 0]
  ELSE V4End(FoldLeft(V4Step, V4Start, t))

FormatV4(b) ==
  DecText(b[1]) \o <<Dot>> \o DecText(b[2]) \o <<Dot>> \o DecText(b[3]) \o <<Dot>> \o DecText(b[4])

(* ".in-addr.arpa" *)
InAddrArpa == <<46, 105, 110, 45, 97, 100, 100, 114, 46, 97, 114, 112, 97>>
ReverseV4(b) == FormatV4(<<b[4], b[3], b[2], b[1]>>) \o InAddrArpa
=============================================================================
