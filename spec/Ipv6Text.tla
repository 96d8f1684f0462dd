------------------------------- MODULE Ipv6Text -------------------------------
(***************************************************************************)
(* IPv6 text with scope ids: a character automaton over the address part,  *)
(* a scope automaton, and the three output formats.                        *)
(* ScopeMax is the configured maximal scope length (0: no scopes),         *)
(* ScopeSpaces whether white space is allowed in a scope id.               *)
(***************************************************************************)
EXTENDS Ipv4Text
CONSTANTS ScopeMax, ScopeSpaces

BadScopeChar(c) ==
  \/ c = NUL \/ c = Percent \/ c = Slash
  \/ ~ScopeSpaces /\ (c = Space \/ (c >= Tab /\ c <= CarRet))

(* Verdict on the characters after '%': the first offending one decides *)
RECURSIVE ScopeVerdictFrom(_, _)
ScopeVerdictFrom(t, i) ==
  IF i > Len(t) THEN ErrNone
  ELSE IF i > ScopeMax THEN ErrScopeLong
  ELSE IF BadScopeChar(t[i]) THEN ErrScopeInvalid
  ELSE ScopeVerdictFrom(t, i + 1)
ScopeVerdict(t) == IF t = <<>> THEN ErrScopeInvalid ELSE ScopeVerdictFrom(t, 1)

(* Setting the scope id of an existing address (the empty text clears it) *)
SetScopeVerdict(t) ==
  IF ScopeMax = 0 THEN ErrNone
  ELSE IF Len(t) > ScopeMax THEN ErrScopeLong
  ELSE IF \E i \in 1..Len(t) : BadScopeChar(t[i]) THEN ErrScopeInvalid
  ELSE ErrNone

(* Numeric value of a scope id as a 4-byte word, or <<>> if it has none *)
ScopeValue(t) ==
  IF t = <<>> \/ (\E i \in 1..Len(t) : ~IsDigit(t[i])) THEN <<>>
  ELSE LET v == FoldLeft(LAMBDA w, c : MulSmall(w, 10, c - 48), Zero(8), t)
           \* 64 bits are enough for 19 digits; longer texts are too large unless they start with zeros
           s == FoldLeft(LAMBDA acc, c : IF acc = <<>> /\ c = 48 THEN <<>> ELSE Append(acc, c), <<>>, t)
       IN IF Len(s) > 10 \/ ~IsZero(SubSeq(v, 1, 4)) THEN <<>> ELSE SubSeq(v, 5, 8)

(***************************************************************************)
(* Address part.  parts: completed groups; cur: characters of the current  *)
(* group; prev: previous character; dbl: '::' seen; err: verdict so far.   *)
(***************************************************************************)
V6Start == [parts |-> <<>>, cur |-> <<>>, prev |-> NUL, dbl |-> FALSE, err |-> ErrNone]
V6Fail(s, code) == [s EXCEPT !.err = code]

V6Step(s, c) ==
  IF s.err # ErrNone THEN s
  ELSE LET dbl == s.dbl \/ (c = Colon /\ s.prev = Colon)
       IN IF Len(s.parts) > 8 THEN V6Fail(s, IF dbl THEN ErrAtMost7 ELSE ErrMost8Colons)
          ELSE IF c = NUL THEN V6Fail(s, ErrPartSymbol)
          ELSE IF c # Colon THEN
             IF Len(s.cur) > 15 THEN V6Fail(s, ErrPartChars)
             ELSE [s EXCEPT !.cur = Append(s.cur, c), !.prev = c, !.dbl = dbl]
          ELSE IF Len(s.cur) > 4 THEN V6Fail(s, ErrPartChars)
          ELSE [s EXCEPT !.parts = Append(s.parts, s.cur), !.cur = <<>>, !.prev = c, !.dbl = dbl]

HexText16(hi, lo) == <<HexDigit(hi \div 16), HexDigit(hi % 16), HexDigit(lo \div 16), HexDigit(lo % 16)>>

V6No(code, idx) == [code |-> code, bytes |-> Zero(16), idx |-> idx]

PartBytes(p) ==
  LET v == FoldLeft(LAMBDA acc, c : acc * 16 + HexVal(c), 0, p)
  IN <<v \div 256, v % 256>>
PartOk(p) == \A i \in 1..Len(p) : IsHex(p[i])
FlattenParts(ps) == FoldLeft(LAMBDA acc, p : acc \o PartBytes(p), <<>>, ps)

(* groups of the whole text: place of '::' and values *)
V6Assemble(parts) ==
  LET n == Len(parts)
      inner == {i \in 2..(n - 1) : parts[i] = <<>>}
      skip == CHOOSE i \in inner : TRUE
      first == parts[1] = <<>>
      last == parts[n] = <<>>
      hi == skip - 1 - (IF first THEN 1 ELSE 0)      \* groups before '::'
      lo == n - skip - (IF last THEN 1 ELSE 0)       \* groups after '::'
      value(h, l) ==
        LET used == SubSeq(parts, 1, h) \o SubSeq(parts, n - l + 1, n)
        IN IF \E i \in 1..Len(used) : ~PartOk(used[i]) THEN V6No(ErrPartSymbol, n)
           ELSE [code |-> ErrNone, idx |-> n,
                 bytes |-> FlattenParts(SubSeq(parts, 1, h)) \o Zero(16 - 2 * (h + l))
                             \o FlattenParts(SubSeq(parts, n - l + 1, n))]
  IN IF Cardinality(inner) > 1 THEN V6No(ErrOneDouble, n)
     ELSE IF inner # {} THEN
        IF first /\ hi # 0 THEN V6No(ErrLeadingColon, n)
        ELSE IF last /\ lo # 0 THEN V6No(ErrTrailingColon, n)
        ELSE IF hi + lo > 7 THEN V6No(ErrAtMost7, n)
        ELSE value(hi, lo)
     ELSE IF n # 8 THEN V6No(ErrExactly8, n)
     ELSE IF first THEN V6No(ErrLeadingColon, n)
     ELSE IF last THEN V6No(ErrTrailingColon, n)
     ELSE value(8, 0)

V6End(s) ==
  LET n == Len(s.parts) IN
  IF s.err # ErrNone THEN V6No(s.err, n)
  ELSE IF n > 8 THEN
     V6No(IF s.parts[1] = <<>> /\ s.parts[2] # <<>> THEN ErrLeadingColon
          ELSE IF s.cur = <<>> THEN ErrTrailingColon ELSE ErrMost8Colons, n)
  ELSE IF Has(s.cur, Dot) THEN
     IF n + (IF s.dbl THEN 1 ELSE 2) > 8 THEN V6No(ErrMost8Colons, n)
     ELSE LET v4 == ParseV4(s.cur)
              ps == s.parts \o <<HexText16(v4.bytes[1], v4.bytes[2]), HexText16(v4.bytes[3], v4.bytes[4])>>
          IN IF v4.code # ErrNone THEN V6No(v4.code, n)
             ELSE IF Len(ps) < 3 THEN V6No(ErrLeast3, Len(ps))
             ELSE V6Assemble(ps)
  ELSE IF Len(s.cur) > 4 THEN V6No(ErrPartChars, n)
  ELSE IF n + 1 < 3 THEN V6No(ErrLeast3, n + 1)
  ELSE V6Assemble(Append(s.parts, s.cur))

(* the whole text; scope is <<>> unless accepted with one *)
ParseV6(t) ==
  LET p == IndexOf(t, Percent)
      ip == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
      sc == IF p = 0 THEN <<>> ELSE SubSeq(t, p + 1, Len(t))
      sv == IF p = 0 THEN ErrNone ELSE ScopeVerdict(sc)
      r == V6End(FoldLeft(V6Step, V6Start, ip))
      no(code, idx) == [code |-> code, bytes |-> Zero(16), scope |-> <<>>, idx |-> idx]
  IN IF t = <<>> THEN no(ErrEmptyAddress, 0)
     ELSE IF sv # ErrNone THEN no(sv, 0)
     ELSE IF r.code # ErrNone THEN no(r.code, r.idx)
     ELSE [code |-> ErrNone, bytes |-> r.bytes, scope |-> sc, idx |-> r.idx]

(***************************************************************************)
(* Formatting                                                              *)
(***************************************************************************)
FmtFull == 0  FmtCompact == 1  FmtCompressed == 2

Group(b, i) == HexText16(b[2 * i - 1], b[2 * i])
RECURSIVE StripZeros(_)
StripZeros(g) == IF Len(g) > 1 /\ g[1] = 48 THEN StripZeros(Tail(g)) ELSE g
RECURSIVE JoinColon(_)
JoinColon(gs) == IF gs = <<>> THEN <<>>
                 ELSE IF Len(gs) = 1 THEN gs[1]
                 ELSE gs[1] \o <<Colon>> \o JoinColon(Tail(gs))

(* length of the run of zero groups that starts at i *)
RECURSIVE ZeroRun(_, _)
ZeroRun(b, i) == IF i > 8 THEN 0
                 ELSE IF b[2 * i - 1] = 0 /\ b[2 * i] = 0 THEN 1 + ZeroRun(b, i + 1) ELSE 0

FormatV6(b, fmt) ==
  LET full == TLCEval([i \in 1..8 |-> Group(b, i)])
      short == TLCEval([i \in 1..8 |-> StripZeros(Group(b, i))])
      run == TLCEval([i \in 1..8 |-> ZeroRun(b, i)])
      best == CHOOSE i \in 1..8 : \A j \in 1..8 : run[i] > run[j] \/ (run[i] = run[j] /\ i <= j)
  IN IF fmt = FmtFull THEN JoinColon(full)
     ELSE IF fmt = FmtCompact \/ run[best] < 2 THEN JoinColon(short)
     ELSE JoinColon(SubSeq(short, 1, best - 1)) \o <<Colon, Colon>>
            \o JoinColon(SubSeq(short, best + run[best], 8))

WithScope(text, scope) == IF scope = <<>> THEN text ELSE text \o <<Percent>> \o scope

(* ".ip6.arpa" *)
Ip6Arpa == <<46, 105, 112, 54, 46, 97, 114, 112, 97>>
ReverseV6(b) ==
  LET nib(k) == LET x == b[(k + 1) \div 2] IN HexDigit(IF k % 2 = 1 THEN x \div 16 ELSE x % 16)
  IN FoldLeft(LAMBDA acc, k : IF acc = <<>> THEN <<nib(33 - k)>> ELSE acc \o <<Dot, nib(33 - k)>>,
              <<>>, TLCEval([k \in 1..32 |-> k])) \o Ip6Arpa
=============================================================================
