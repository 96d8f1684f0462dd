-------------------------------- MODULE NetText --------------------------------
(* Networks: text, construction, derived attributes.  A network is a record *)
(* [addr, scope, plen]; addr is masked.  Width W is 4 or 16 bytes.          *)
EXTENDS Ipv6Text

Bits(W) == 8 * W
DefNet(W) == [addr |-> Zero(W), scope |-> <<>>, plen |-> Bits(W)]
NetMask(n) == MaskW(Len(n.addr), n.plen)
HostMask(n) == NotW(NetMask(n))
Broadcast(n) == OrW(n.addr, HostMask(n))
(* number of addresses modulo 2^width *)
AddrCount(n) == IncW(SubW(Broadcast(n), n.addr))
IsAligned(a, p) == AndW(a, MaskW(Len(a), p)) = a

(* a block from an address: the scope id survives only if no bit is cleared *)
MakeNet(addr, scope, plen, strict) ==
  LET W == Len(addr)
      m == AndW(addr, MaskW(W, plen))
  IN IF plen > Bits(W) THEN [code |-> ErrInvalidNetmask, net |-> DefNet(W)]
     ELSE IF m = addr THEN [code |-> ErrNone, net |-> [addr |-> addr, scope |-> scope, plen |-> plen]]
     ELSE IF strict THEN [code |-> ErrHostBits, net |-> DefNet(W)]
     ELSE [code |-> ErrNone, net |-> [addr |-> m, scope |-> <<>>, plen |-> plen]]

(* prefix length written in decimal digits, or -1 if above max *)
DigitsValue(t, max) ==
  FoldLeft(LAMBDA v, c : IF v = -1 THEN -1
                         ELSE LET x == v * 10 + (c - 48) IN IF x > max THEN -1 ELSE x, 0, t)

(* prefix length of a contiguous mask, or -1 *)
RECURSIVE MaskLenFrom(_, _)
MaskLenFrom(m, p) == IF p > Bits(Len(m)) THEN -1
                     ELSE IF MaskW(Len(m), p) = m THEN p ELSE MaskLenFrom(m, p + 1)
MaskLen(m) == MaskLenFrom(m, 0)

(* the part after the slash: [code, plen] *)
ParseMask(W, t) ==
  IF \A i \in 1..Len(t) : IsDigit(t[i]) THEN
     LET v == DigitsValue(t, Bits(W))
     IN IF v = -1 THEN [code |-> ErrInvalidNetmask, plen |-> 0]
        ELSE [code |-> ErrNone, plen |-> v]
  ELSE IF W = 16 THEN [code |-> ErrInvalidNetmask, plen |-> 0]
  ELSE LET a == ParseV4(t)
           net == MaskLen(a.bytes)
           host == MaskLen(NotW(a.bytes))
       IN IF a.code # ErrNone THEN [code |-> ErrInvalidNetmask, plen |-> 0]
          ELSE IF net # -1 THEN [code |-> ErrNone, plen |-> net]
          ELSE IF host # -1 THEN [code |-> ErrNone, plen |-> host]
          ELSE [code |-> ErrMaskMixes, plen |-> 0]

(* address text of either width as [code, bytes, scope, idx] *)
ParseAddr(W, t) ==
  IF W = 4 THEN LET r == ParseV4(t) IN [code |-> r.code, bytes |-> r.bytes, scope |-> <<>>, idx |-> r.idx]
  ELSE ParseV6(t)

SlashCount(t) == Cardinality({i \in 1..Len(t) : t[i] = Slash})

ParseNet(W, t, strict) ==
  LET p == IndexOf(t, Slash)
      q == IF p = 0 THEN 0 ELSE IndexOf(SubSeq(t, p + 1, Len(t)), Slash)
      no(code) == [code |-> code, net |-> DefNet(W)]
      mask == IF p = 0 THEN [code |-> ErrNone, plen |-> Bits(W)]
              ELSE ParseMask(W, SubSeq(t, p + 1, Len(t)))
      addr == ParseAddr(W, IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1))
  IN IF p # 0 /\ p = Len(t) THEN no(ErrEmptyNetmask)
     ELSE IF q # 0 THEN no(ErrOneSlash)
     ELSE IF mask.code # ErrNone THEN no(mask.code)
     ELSE IF addr.code # ErrNone THEN no(addr.code)
     ELSE MakeNet(addr.bytes, addr.scope, mask.plen, strict)

FormatAddr(a, scope, fmt) ==
  IF Len(a) = 4 THEN FormatV4(a) ELSE WithScope(FormatV6(a, fmt), scope)
FormatNet(n, fmt) == FormatAddr(n.addr, n.scope, fmt) \o <<Slash>> \o DecText(n.plen)
=============================================================================
