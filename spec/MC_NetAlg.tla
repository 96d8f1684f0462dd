------------------------------- MODULE MC_NetAlg -------------------------------
(* The network algebra over one-byte addresses: every network, every pair.      *)
(* A state is a pair of networks; the laws are invariants.                      *)
EXTENDS NetAlg
CONSTANT MinPlen
VARIABLES x, y
Nets == {Block(<<a>>, p) : a \in 0..255, p \in MinPlen..8}
Init == x \in Nets /\ y = x
Next == x' = x /\ y = x /\ y' \in Nets
Low(n) == n.addr[1]
High(n) == Broadcast(n)[1]
Set(n) == Low(n)..High(n)
Members(s) == UNION {Set(s[i]) : i \in 1..Len(s)}
Range1(n, p) == [i \in 1..SubnetsSize(n, p)[1] |-> SubnetAt(n, p, <<i - 1>>)]

TypeOK == x.plen \in 0..8 /\ IsAligned(x.addr, x.plen) /\ Cardinality(Set(x)) = (IF x.plen = 0 THEN 256 ELSE AddrCount(x)[1])
ContainsIsMembership == \A a \in {Low(x), High(x), (Low(x) + 255) % 256, (High(x) + 1) % 256, Low(y), High(y)} :
                           HasAddr(x, <<a>>) <=> a \in Set(x)
OverlapsIsIntersection == Overlaps(x, y) <=> Set(x) \cap Set(y) # {}
SubnetIsInclusion == SubnetOf(x, y) <=> Set(x) \subseteq Set(y)
(* aligned blocks are nested or disjoint *)
Laminar == Overlaps(x, y) => SubnetOf(x, y) \/ SubnetOf(y, x)
SubnetsPartition ==
  x = y => \A p \in x.plen..8 : (x.plen > 0 \/ p < 8) =>
    LET s == Range1(x, p)
    IN /\ Members(s) = Set(x)
       /\ \A i \in 1..Len(s) : s[i] \in Nets /\ s[i].plen = p
       /\ \A i \in 2..Len(s) : Low(s[i]) = High(s[i - 1]) + 1
SupernetUnique ==
  x = y => \A d \in 0..x.plen :
    LET s == Supernet(x, d, -1)
    IN /\ (x.plen > 0 => s.plen = x.plen - d) /\ SubnetOf(x, s)
       /\ (x.plen - d >= MinPlen => \A n \in {m \in Nets : m.plen = x.plen - d} : SubnetOf(x, n) => n = s)
       /\ Supernet(x, 1, x.plen - d) = s \/ x.plen = 0
ExcludePartitions ==
  SubnetOf(y, x) =>
    LET e == Exclude(x, y)
    IN /\ Len(e) = y.plen - x.plen
       /\ Members(e) \cup Set(y) = Set(x)
       /\ \A i \in 1..Len(e) : Set(e[i]) \cap Set(y) = {} /\ e[i].plen = x.plen + i
       /\ \A i, j \in 1..Len(e) : i < j => Set(e[i]) \cap Set(e[j]) = {}
ExcludeOnlyContained == ExcludeCode(x, y) = ErrNone <=> Set(y) \subseteq Set(x)
HostsAreUsable ==
  x = y /\ x.plen > 0 =>
    LET k == HostsCount(x)[1]
        hs == {HostAt(x, <<i>>)[1] : i \in 0..(k - 1)}
    IN IF x.plen >= 7 THEN hs = Set(x) ELSE hs = (Low(x) + 1)..(High(x) - 1)
=============================================================================
