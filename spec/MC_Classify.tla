------------------------------ MODULE MC_Classify ------------------------------
(* Laws of the categories on both sides of every edge of every block, and for    *)
(* every network whose ends are such edges.                                      *)
EXTENDS NetAlg
CONSTANT Near
VARIABLES a, p
All4 == Private4 \cup Shared4 \cup Reserved4 \cup Multicast4 \cup Loopback4 \cup LinkLocal4
All6 == Private6 \cup Reserved6 \cup Multicast6 \cup Loopback6 \cup LinkLocal6 \cup SiteLocal6 \cup {B6(<<8194>>, 16), B6(<<8193, 0>>, 32)}
Blocks == All4 \cup All6
FirstOf(b) == b[1]
LastOf(b) == OrW(b[1], NotW(MaskW(Len(b[1]), b[2])))
RECURSIVE Around(_, _)
Around(x, k) == IF k = 0 THEN {x} ELSE LET s == Around(x, k - 1) IN s \cup {IncW(y) : y \in s} \cup {DecW(y) : y \in s}
Points == UNION {Around(FirstOf(b), Near) \cup Around(LastOf(b), Near) : b \in Blocks}
MappedPoints == {V6Mapped[1] : x \in {1}} \cup {SubSeq(V6Mapped[1], 1, 12) \o x : x \in {y \in Points : Len(y) = 4}}
Init == a \in Points \cup MappedPoints /\ p = -1
Next == p = -1 /\ p' \in 0..(8 * Len(a)) /\ a' = a
Net == Block(a, p)
BlocksAligned == \A b \in Blocks : AndW(b[1], MaskW(Len(b[1]), b[2])) = b[1]
C == AddrCategories(a)
N == NetCategories(Net)
(* membership is being between the first and last address of a block *)
InIsInterval == p = -1 => \A b \in {x \in Blocks : Len(x[1]) = Len(a)} : In(a, b) <=> LeW(FirstOf(b), a) /\ LeW(a, LastOf(b))
PrivateNotGlobal == p = -1 => ~(C.private /\ C.global) /\ (Len(a) = 16 => C.global = ~C.private)
Consistent == p = -1 => /\ (C.loopback => C.private) /\ (C.link_local => C.private)
                        /\ ~(C.multicast /\ C.reserved) /\ ~(C.link_local /\ C.site_local)
                        /\ (C.unspecified => IsZero(a)) /\ (IsMapped(a) => C.private = PrivateAddr(Tail4(a)))
(* a category of a network holds at both its ends, and a one-address network is its address *)
EndsAgree == p # -1 =>
  LET e == AddrCategories(Net.addr) f == AddrCategories(Broadcast(Net))
  IN /\ N.multicast = (e.multicast /\ f.multicast) /\ N.reserved = (e.reserved /\ f.reserved)
     /\ N.loopback = (e.loopback /\ f.loopback) /\ N.link_local = (e.link_local /\ f.link_local)
     /\ N.unspecified = (e.unspecified /\ f.unspecified) /\ N.site_local = (e.site_local /\ f.site_local)
     /\ (N.private /\ ~IsMapped(Net.addr) => e.private /\ f.private)
     /\ (p = 8 * Len(a) /\ ~IsMapped(a) => N = C)
(* all of a private network is private: its subnets are private too *)
Hereditary == p # -1 /\ p < 8 * Len(a) /\ N.private => NetCategories(Block(a, p + 1)).private
(* at most one kind of embedded address, and none in IPv4 *)
EmbedOnce == p = -1 => /\ Cardinality({x \in {Mapped4(a), SixToFour(a), TeredoServer(a)} : x # <<>>}) <= 1
                       /\ (Len(a) = 4 => Mapped4(a) = <<>> /\ SixToFour(a) = <<>> /\ TeredoServer(a) = <<>>)
                       /\ (TeredoServer(a) = <<>> <=> TeredoClient(a) = <<>>)
=============================================================================
