-------------------------------- MODULE NetRegs --------------------------------
(* Three registers of networks of one version: however a network comes about or    *)
(* moves (constructed, read, copied, exchanged, sorted, derived from others), each   *)
(* register holds one aligned block and everything it shows is about that block.      *)
EXTENDS NetAlg, Order, TLC
RegPoint(n) == [b |-> n.addr, s |-> n.scope, p |-> n.plen]
Blank(W) == [i \in 1..3 |-> DefNet(W)]
Put(s, i, n) == [s EXCEPT ![i] = n]
Exchanged(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Rotated(s) == [i \in DOMAIN s |-> s[(i % Len(s)) + 1]]
Sorted(s) == SortSeq(s, LAMBDA x, y : Cmp(RegPoint(x), RegPoint(y)) < 0)
(* a subnet: the first, the last, or the one after the first if there is one *)
SubIndex(n, p, which) == CASE which = "f" -> Zero(Len(n.addr))
                           [] which = "l" -> LastIndex(n, p)
                           [] which = "m" -> IF p > n.plen THEN OneW(Len(n.addr)) ELSE Zero(Len(n.addr))
Derived(s, i, n, p, which) == IF SubnetsCode(n, 1, p) # ErrNone THEN s
                              ELSE LET q == SubnetsPlen(n, 1, p) IN Put(s, i, SubnetAt(n, q, SubIndex(n, q, which)))
Remainder(s, i, n, o, k) == LET all == Exclude(n, o) IN IF Len(all) = 0 THEN s ELSE Put(s, i, all[(k % Len(all)) + 1])
(* what a network says of its block of addresses, and as text *)
Facts(n) == [net |-> n, mask |-> NetMask(n), host |-> HostMask(n), last |-> Broadcast(n), count |-> AddrCount(n)]
Says(n) == Facts(n) @@ [text |-> FormatNet(n, FmtCompressed)]
=============================================================================
