-------------------------------- MODULE NetAlg --------------------------------
(* The algebra of networks: relations, subnets, supernets, exclusion, hosts.    *)
(* A network is [addr, scope, plen] over words of Len(addr) bytes; numbers of   *)
(* networks and addresses are words of that length, taken modulo 2^width.       *)
EXTENDS Classify

Width(n) == 8 * Len(n.addr)
Plain(n) == [n EXCEPT !.scope = <<>>]
Block(addr, p) == [addr |-> AndW(addr, MaskW(Len(addr), p)), scope |-> <<>>, plen |-> p]

(* ---- relations ---- *)
HasAddr(n, a) == AndW(a, NetMask(n)) = n.addr
Overlaps(x, y) == HasAddr(y, x.addr) \/ HasAddr(y, Broadcast(x)) \/ HasAddr(x, y.addr) \/ HasAddr(x, Broadcast(y))
SubnetOf(x, y) == y.plen <= x.plen /\ HasAddr(y, x.addr)

(* ---- arguments: new = -1 when no new prefix length is given ---- *)
SupernetCode(n, diff, new) ==
  IF n.plen = 0 THEN ErrNone
  ELSE IF new # -1 THEN
       IF new > n.plen THEN ErrShorter ELSE IF diff # 1 THEN ErrBothArgs ELSE ErrNone
  ELSE IF diff > n.plen THEN ErrPrefixDiff ELSE ErrNone
Supernet(n, diff, new) ==
  IF SupernetCode(n, diff, new) # ErrNone THEN DefNet(Len(n.addr))
  ELSE IF n.plen = 0 THEN n
  ELSE Block(n.addr, IF new # -1 THEN new ELSE n.plen - diff)

SubnetsCode(n, diff, new) ==
  IF n.plen = Width(n) THEN ErrNone
  ELSE IF new # -1 THEN
       IF new < n.plen THEN ErrLonger ELSE IF diff # 1 THEN ErrBothArgs
       ELSE IF new > Width(n) THEN ErrPrefixDiff ELSE ErrNone
  ELSE IF diff > Width(n) - n.plen THEN ErrPrefixDiff ELSE ErrNone
SubnetsPlen(n, diff, new) ==
  IF n.plen = Width(n) THEN n.plen ELSE IF new # -1 THEN new ELSE n.plen + diff
(* the sequence of subnets: its size and its elements, by index *)
SubnetsSize(n, p) == BitW(p - n.plen, Len(n.addr))
SubnetAt(n, p, idx) == [addr |-> AddW(n.addr, ShlW(idx, Width(n) - p)), scope |-> <<>>, plen |-> p]
LastIndex(n, p) == DecW(SubnetsSize(n, p))

(* ---- exclusion ---- *)
ExcludeCode(n, o) == IF SubnetOf(Plain(o), Plain(n)) THEN ErrNone ELSE ErrNotContained
(* the sibling, at prefix length p, of the block of that length around o *)
Sibling(o, p) == LET b == Block(o.addr, p) IN [b EXCEPT !.addr = XorW(b.addr, BitW(Width(o) - p, Len(o.addr)))]
Exclude(n, o) == IF ExcludeCode(n, o) # ErrNone THEN <<>>
                 ELSE TLCEval([k \in 1..(o.plen - n.plen) |-> Sibling(o, n.plen + k)])

(* ---- hosts: first address and number of them ---- *)
HostsFirst(n) == IF n.plen >= Width(n) - 1 THEN n.addr ELSE IncW(n.addr)
HostsCount(n) == IF n.plen >= Width(n) - 1 THEN AddrCount(n)
                 ELSE IF Len(n.addr) = 16 THEN DecW(AddrCount(n)) ELSE DecW(DecW(AddrCount(n)))
HostAt(n, idx) == AddW(HostsFirst(n), idx)
=============================================================================
