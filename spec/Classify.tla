------------------------------- MODULE Classify -------------------------------
(* Special-purpose address blocks and the category predicates over them.       *)
EXTENDS NetText

In(a, b) == AndW(a, MaskW(Len(a), b[2])) = b[1]          \* block b = <<address, prefix length>>
B4(w, x, y, z, p) == <<<<w, x, y, z>>, p>>
(* an IPv6 block from its leading 16-bit groups, the rest zero *)
B6(groups, p) == << LET bs == FoldLeft(LAMBDA acc, g : acc \o <<g \div 256, g % 256>>, <<>>, groups)
                    IN bs \o Zero(16 - Len(bs)), p >>

Private4 == { B4(0,0,0,0,8), B4(10,0,0,0,8), B4(127,0,0,0,8), B4(169,254,0,0,16), B4(172,16,0,0,12),
              B4(192,0,0,0,29), B4(192,0,0,170,31), B4(192,0,2,0,24), B4(192,168,0,0,16), B4(198,18,0,0,15),
              B4(198,51,100,0,24), B4(203,0,113,0,24), B4(240,0,0,0,4), B4(255,255,255,255,32) }
Shared4 == { B4(100,64,0,0,10) }                         \* neither private nor global
Reserved4 == { B4(240,0,0,0,4) }
Multicast4 == { B4(224,0,0,0,4) }
Loopback4 == { B4(127,0,0,0,8) }
LinkLocal4 == { B4(169,254,0,0,16) }

V6Loopback == <<OneW(16), 128>>
V6Mapped == <<Zero(10) \o <<255, 255, 0, 0, 0, 0>>, 96>>
Private6 == { V6Loopback, B6(<<>>, 128), V6Mapped, B6(<<256>>, 64), B6(<<8193>>, 23), B6(<<8193, 2>>, 48),
              B6(<<8193, 3512>>, 32), B6(<<8193, 16>>, 28), B6(<<64512>>, 7), B6(<<65152>>, 10) }
Reserved6 == { B6(<<>>, 8), B6(<<256>>, 8), B6(<<512>>, 7), B6(<<1024>>, 6), B6(<<2048>>, 5), B6(<<4096>>, 4),
               B6(<<16384>>, 3), B6(<<24576>>, 3), B6(<<32768>>, 3), B6(<<40960>>, 3), B6(<<49152>>, 3),
               B6(<<57344>>, 4), B6(<<61440>>, 5), B6(<<63488>>, 6), B6(<<65024>>, 9) }
Multicast6 == { B6(<<65280>>, 8) }
Loopback6 == { V6Loopback }
LinkLocal6 == { B6(<<65152>>, 10) }
SiteLocal6 == { B6(<<65216>>, 10) }

AnyIn(a, blocks) == \E b \in blocks : In(a, b)
BothIn(n, blocks) == AnyIn(n.addr, blocks) /\ AnyIn(Broadcast(n), blocks)
OneIn(n, blocks) == \E b \in blocks : In(n.addr, b) /\ In(Broadcast(n), b)

IsMapped(a) == Len(a) = 16 /\ In(a, V6Mapped)
Tail4(a) == SubSeq(a, 13, 16)

PrivateAddr(a) == IF Len(a) = 4 THEN AnyIn(a, Private4)
                  ELSE IF IsMapped(a) THEN AnyIn(Tail4(a), Private4) ELSE AnyIn(a, Private6)
GlobalAddr(a) == IF Len(a) = 4 THEN ~AnyIn(a, Shared4) /\ ~PrivateAddr(a) ELSE ~PrivateAddr(a)

AddrCategories(a) ==
  LET v4 == Len(a) = 4
  IN [ multicast |-> AnyIn(a, IF v4 THEN Multicast4 ELSE Multicast6),
       private |-> PrivateAddr(a), global |-> GlobalAddr(a),
       reserved |-> AnyIn(a, IF v4 THEN Reserved4 ELSE Reserved6),
       loopback |-> AnyIn(a, IF v4 THEN Loopback4 ELSE Loopback6),
       link_local |-> AnyIn(a, IF v4 THEN LinkLocal4 ELSE LinkLocal6),
       unspecified |-> IsZero(a),
       site_local |-> ~v4 /\ AnyIn(a, SiteLocal6) ]

(* a network is private when one block holds it; the other categories ask for both its ends *)
PrivateNet(n) == OneIn(n, IF Len(n.addr) = 4 THEN Private4 ELSE Private6)
GlobalNet(n) == IF Len(n.addr) = 4 THEN ~OneIn(n, Shared4) /\ ~PrivateNet(n) ELSE ~PrivateNet(n)
NetCategories(n) ==
  LET v4 == Len(n.addr) = 4
  IN [ multicast |-> BothIn(n, IF v4 THEN Multicast4 ELSE Multicast6),
       private |-> PrivateNet(n), global |-> GlobalNet(n),
       reserved |-> BothIn(n, IF v4 THEN Reserved4 ELSE Reserved6),
       loopback |-> BothIn(n, IF v4 THEN Loopback4 ELSE Loopback6),
       link_local |-> BothIn(n, IF v4 THEN LinkLocal4 ELSE LinkLocal6),
       unspecified |-> IsZero(n.addr) /\ IsZero(Broadcast(n)),
       site_local |-> ~v4 /\ BothIn(n, SiteLocal6) ]

(* embedded IPv4 addresses, <<>> when there is none *)
Mapped4(a) == IF IsMapped(a) THEN Tail4(a) ELSE <<>>
SixToFour(a) == IF Len(a) = 16 /\ a[1] = 32 /\ a[2] = 2 THEN SubSeq(a, 3, 6) ELSE <<>>
TeredoServer(a) == IF Len(a) = 16 /\ SubSeq(a, 1, 4) = <<32, 1, 0, 0>> THEN SubSeq(a, 5, 8) ELSE <<>>
TeredoClient(a) == IF Len(a) = 16 /\ SubSeq(a, 1, 4) = <<32, 1, 0, 0>> THEN NotW(Tail4(a)) ELSE <<>>
=============================================================================
