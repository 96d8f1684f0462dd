--------------------------------- MODULE AnyIp ---------------------------------
(* Objects of either version: what they show of the value they hold, how a text  *)
(* chooses the version, what operations over two versions answer, and registers   *)
(* that hold them.  An address is [b, s], a network [addr, scope, plen]; the       *)
(* number of bytes is the version.                                                 *)
EXTENDS Scope, NetAlg, Classify, Order

Version(b) == IF Len(b) = 4 THEN 4 ELSE 6
DefAddr == [b |-> Zero(4), s |-> <<>>]
DefAnyNet == DefNet(4)

(* IPv4 if it is a text of IPv4, otherwise IPv6 or nothing *)
ParseAnyNet(t, strict) ==
  LET n4 == ParseNet(4, t, strict)
      n6 == ParseNet(16, t, strict)
  IN IF n4.code = ErrNone THEN n4
     ELSE IF n6.code = ErrNone THEN n6 ELSE [code |-> n6.code, net |-> DefAnyNet]

AddrView(r) ==
  LET v6 == Len(r.b) = 16
  IN [version |-> Version(r.b), is4 |-> ~v6, is6 |-> v6, size |-> Len(r.b), b |-> r.b, s |-> r.s,
      v4 |-> IF v6 THEN <<>> ELSE <<r>>, v6 |-> IF v6 THEN <<r>> ELSE <<>>,
      u32 |-> ResizeW(r.b, 4), u128 |-> ResizeW(r.b, 16),
      full |-> FormatAddr(r.b, r.s, FmtFull), compact |-> FormatAddr(r.b, r.s, FmtCompact), text |-> FormatAddr(r.b, r.s, FmtCompressed),
      rev |-> IF v6 THEN ReverseV6(r.b) ELSE ReverseV4(r.b), cats |-> AddrCategories(r.b),
      mapped |-> IF v6 THEN Mapped4(r.b) ELSE <<>>, sixtofour |-> IF v6 THEN SixToFour(r.b) ELSE <<>>,
      server |-> IF v6 THEN TeredoServer(r.b) ELSE <<>>, client |-> IF v6 THEN TeredoClient(r.b) ELSE <<>>]
NetView(n) ==
  LET v6 == Len(n.addr) = 16
      W == Len(n.addr)
  IN [version |-> Version(n.addr), is4 |-> ~v6, is6 |-> v6, size |-> W, net |-> n,
      v4 |-> IF v6 THEN <<>> ELSE <<n>>, v6 |-> IF v6 THEN <<n>> ELSE <<>>,
      last |-> Broadcast(n), mask |-> NetMask(n), host |-> HostMask(n), count |-> ResizeW(AddrCount(n), 16),
      full |-> FormatNet(n, FmtFull), compact |-> FormatNet(n, FmtCompact), text |-> FormatNet(n, FmtCompressed),
      cats |-> NetCategories(n), hosts |-> ResizeW(HostsCount(n), 16), first |-> HostAt(n, Zero(W)), final |-> HostAt(n, DecW(HostsCount(n)))]

(* operations over two values, of one version or not *)
SameVersion(x, y) == Len(x) = Len(y)
AnyHas(n, r) == SameVersion(n.addr, r.b) /\ HasAddr(n, r.b)
AnyOverlaps(x, y) == SameVersion(x.addr, y.addr) /\ Overlaps(x, y)
AnySubnetOf(x, y) == SameVersion(x.addr, y.addr) /\ SubnetOf(x, y)
AnyExcludeCode(x, y) == IF SameVersion(x.addr, y.addr) THEN ExcludeCode(x, y) ELSE ErrVersion
AnyExclude(x, y) == IF SameVersion(x.addr, y.addr) THEN Exclude(x, y) ELSE <<>>
AsPoint(r) == [b |-> r.b, s |-> r.s, p |-> -1]
NetPoint(n) == [b |-> n.addr, s |-> n.scope, p |-> n.plen]
(* codes of operations that fail leave the default value of the version held, except parsing *)
AnySupernet(n, diff, new) == Supernet(n, diff, new)

(* three registers of each kind *)
Blanks == [a |-> [i \in 1..3 |-> DefAddr], n |-> [i \in 1..3 |-> DefAnyNet]]
SetA(s, i, r) == [s EXCEPT !.a[i] = r]
SetN(s, i, n) == [s EXCEPT !.n[i] = n]
SwapA(s, i, j) == [s EXCEPT !.a[i] = s.a[j], !.a[j] = s.a[i]]
SwapN(s, i, j) == [s EXCEPT !.n[i] = s.n[j], !.n[j] = s.n[i]]
=============================================================================
